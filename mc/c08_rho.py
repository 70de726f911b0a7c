"""C08: support functions and support points."""
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import (ARRAY_KINDS, Ellipsoid, Hyperplane, Properties, arr, close_flat, ell, expect, expect_error, fail, flat, form, hyp, obj_array, reset,
                 wrap)
from ellipy.gras.geom.ell.ell import rho_mat


def reference(q, c, l):
    """-> support value, support point; exact quadratic form."""
    f = ora.quad(q, l)
    if f <= 0:
        return float(ora.dot(c, l)), [float(x) for x in c]
    s = math.sqrt(float(f))
    ql = ora.mv(q, l)
    return float(ora.dot(c, l)) + s, [float(x) + float(y) / s for x, y in zip(c, ql)]


def columns(bp, n, what):
    bp = np.asarray(bp)
    expect(bp.shape[0] == n, '{}: support points of shape {}', what, bp.shape)
    return bp.reshape(n, -1).T


def check(sup, bp, n, refs, what, tol=1e-10):
    sup = flat(sup)
    expect(len(sup) == len(refs), '{}: {} support values instead of {}', what, len(sup), len(refs))
    pts = columns(bp, n, what)
    expect(len(pts) == len(refs), '{}: {} support points instead of {}', what, len(pts), len(refs))
    for i, (rs, rp) in enumerate(refs):
        sc = max([1e-12, abs(rs)] + [abs(x) for x in rp])
        close_flat([sup[i]], [rs], tol, '{}: support value {}'.format(what, i), sc)
        close_flat(pts[i], rp, tol, '{}: support point {}'.format(what, i), sc)


def dir_menu(n, tier):
    ds = [[0] * n] + ora.dirs(n, (0, 1, -1) if n < 4 or tier != 'quick' else (0, 1))
    if n <= 3:
        ds = ds + [ora.scal(k, d) for d in ds[1:4] for k in (Fr(1, 8192), Fr(1024), Fr(7, 2))]
        ds.append([3, -7, 11, 2][:n])
    return ds


def shape_cases(tier):
    big = tier != 'quick'
    for q in ora.psd(1, (0, 1, 2, 9), (0,)):
        yield [1, q]
    for q in ora.psd(2, (0, 1, 2, 4, 9), (-6, -3, -2, -1, 0, 1, 2)):
        yield [2, q]
    for q in ora.psd(3, (0, 1, 2) if not big else (0, 1, 2, 4), (-1, 0, 1) if not big else (-2, -1, 0, 1)):
        yield [3, q]
    for q in ora.psd(4, (0, 2) if not big else (0, 1, 2), (0, 1) if not big else (-1, 0, 1)):
        yield [4, q]
    vs = [[1, 2, -1, 0, 1], [0, 1, 1, -2, 1], [2, 0, 1, 1, 0], [1, 1, 1, 1, 1], [0, 0, 3, -1, 2]]
    for k in range(1, 6):
        q = ora.mscal(0, ora.eye(5))
        for v in vs[:k]:
            q = ora.madd(q, ora.outer(v, v))
        yield [5, [[int(x) for x in r] for r in q]]


def centers(n):
    yield [0] * n
    c = [0] * n
    c[n - 1] = -5
    yield c
    yield [3 * (-1) ** i + i for i in range(n)]


def run_shape(case, rec):
    n, q = case
    ds = dir_menu(n, 'quick')
    scales = [Fr(1)] if n > 3 else [Fr(1), Fr(1, 2 ** 24), Fr(2 ** 20)]
    for k in scales:
        qq = ora.mscal(k, q)
        for c in centers(n):
            refs = [reference(qq, c, d) for d in ds]
            for r in refs[:1]:
                rec.outcome('zero')
            e = ell(qq, c)
            dm = arr(ora.T(ds))
            sup, bp = Ellipsoid.rho([e], dm)
            check(sup, bp, n, refs, 'rho, shape {} center {}'.format(qq, c))
            if k == 1:
                sup, bp = rho_mat(arr(qq), dm, 1e-6, arr(c).reshape(-1, 1))
                check(sup, bp, n, refs, 'rho_mat, shape {} center {}'.format(qq, c))
                sub = list(range(0, len(ds), max(1, len(ds) // 9)))
                for j in sub:
                    sup, bp = Ellipsoid.rho(e, dm[:, j:j + 1])
                    check(sup, bp, n, [refs[j]], 'one direction {}, shape {} center {}'.format(ds[j], qq, c))
        if k == 1:
            zero = [0] * n
            sup, bp = rho_mat(arr(qq), dm)
            check(sup, bp, n, [reference(qq, zero, d) for d in ds], 'rho_mat without a center')
    rec.outcome(ora.rank(q))


def tol_cases(tier):
    for tol in (1e-6, 1e-3):
        for f in (-0.5, -0.9):
            for n in (1, 2, 3):
                for pos in range(n):
                    for many in (False, True):
                        yield [tol, f, n, pos, many]


def run_tol(case, rec):
    tol, f, n, pos, many = case
    d = [2.] * n
    d[pos] = f * tol
    c = list(range(1, n + 1))
    ds = [[1. if i == pos else 0. for i in range(n)]]
    if many:
        ds += ds + [[1. if i != pos else 0. for i in range(n)]]
    refs = [reference(ora.diag(d), c, x) for x in ds]
    e = ell(ora.diag(d), c, abs_tol=tol)
    sup, bp = Ellipsoid.rho([e], arr(ora.T(ds)))
    check(sup, bp, n, refs, 'form negative within the tolerance')
    sup, bp = rho_mat(arr(ora.diag(d)), arr(ora.T(ds)), tol, arr(c).reshape(-1, 1))
    check(sup, bp, n, refs, 'form negative within the tolerance')
    reset()
    Properties.set_abs_tol(tol)
    sup, bp = rho_mat(arr(ora.diag(d)), arr(ora.T(ds)))
    check(sup, bp, n, [reference(ora.diag(d), [0] * n, x) for x in ds], 'form negative within the configured tolerance')
    rec.outcome(many)


# -- pairing ---------------------------------------------------------------------------------
E2 = [([0, 0], [[1, 0], [0, 4]]), ([1, -2], [[2, 1], [1, 3]]), ([3, 0], [[1, -1], [-1, 1]]), ([0, 5], [[9, 0], [0, 0]]), ([-1, -1], [[0, 0], [0, 0]])]
E3 = [([0, 0, 1], ora.diag([1, 4, 9])), ([1, -2, 0], [[2, 1, 0], [1, 3, 1], [0, 1, 1]]), ([0, 0, 0], ora.diag([1, 0, 0])),
      ([2, 2, 2], [[2, 0, 1], [0, 1, 0], [1, 0, 2]])]
D2 = [[1, 0], [1, 1], [0, -2], [-3, 1], [1, 1], [2, -5]]
D3 = [[1, 0, 0], [1, 1, -1], [0, -2, 1], [0, 0, 4], [-1, 2, 3], [1, -1, 0]]
ESH = {1: [(1,), (1, 1), (1, 1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (1, 3), (3, 1), (1, 1, 3)], 4: [(2, 2), (4,), (1, 2, 2), (2, 1, 2)], 6: [(2, 3), (6,)]}
DSH = {1: [(1,)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1), (1, 3)], 4: [(2, 2), (4,), (1, 2, 2), (2, 1, 2)], 6: [(2, 3), (6,)]}


def pair_cases(tier):
    for n in (2, 3):
        for ke in ESH:
            for es in ESH[ke]:
                for kd in DSH:
                    for ds in DSH[kd]:
                        for off in (0, 1, 2) if tier == 'quick' else range(5):
                            yield [n, list(es), list(ds), off]
        for kind in ARRAY_KINDS:
            for kd in DSH:
                for ds in DSH[kd]:
                    yield [n, kind, list(ds), 1]


def run_pair(case, rec):
    n, es, ds, off = case
    em, dm = (E2, D2) if n == 2 else (E3, D3)
    ds = tuple(ds)
    kd = int(np.prod(ds))
    if isinstance(es, str):
        el = [em[off % len(em)]]
        a = wrap(ell(el[0][1], el[0][0]), es)
        es = ()
    else:
        es = tuple(es)
        el = [em[(off + i) % len(em)] for i in range(int(np.prod(es)))]
        a = obj_array([ell(q, c) for c, q in el], es)
    ke = len(el)
    dl = [dm[(off + 2 * i) % len(dm)] if kd > 3 else dm[(off + i) % len(dm)] for i in range(kd)]
    darr = np.ascontiguousarray(arr(ora.T(dl)).reshape((n,) + ds))
    one_dir = ds == (1,)
    if ke == 1:
        pairs = [(el[0], d) for d in dl]
    elif one_dir:
        pairs = [(e, dl[0]) for e in el]
    elif es == ds or (len(ds) == 1 and ke == kd and max(es) == ke):
        pairs = list(zip(el, dl))
    else:
        expect_error(lambda: Ellipsoid.rho(a, darr), 'wrongSizes', 'ellipsoids {} with directions {}'.format(es, (n,) + ds))
        rec.outcome('rejected')
        return
    refs = [reference(q, c, d) for (c, q), d in pairs]
    what = 'ellipsoids of shape {} with directions of shape {}'.format(es, (n,) + ds)
    for kind in ('plain', 'int', 'readonly', 'fortran', 'strided') if darr.ndim == 2 else ('plain',):
        sup, bp = Ellipsoid.rho(a, form(darr, kind))
        check(sup, bp, n, refs, what)
    if ke > 1 and one_dir:
        expect(np.shape(sup) == es, '{}: support values of shape {}', what, np.shape(sup))
    if ke == 1 and len(ds) > 1:
        expect(np.shape(sup) == ds and np.shape(bp) == (n,) + ds, '{}: results of shapes {} and {}', what, np.shape(sup), np.shape(bp))
    if es == ds and len(ds) > 1:
        expect(np.shape(sup) == ds and np.shape(bp) == (n,) + ds, '{}: results of shapes {} and {}', what, np.shape(sup), np.shape(bp))
    if len(es) == 1 and not one_dir:
        sup, bp = Ellipsoid.rho(list(a), darr)
        check(sup, bp, n, refs, 'list, ' + what)
    rec.outcome((ke == 1, one_dir))


def bad_cases(tier):
    for i in range(7):
        yield i


def run_bad(i, rec):
    e2, e3 = ell([[1, 0], [0, 1]]), ell(ora.eye(3))
    d2 = arr([[1, 0], [0, 1]])
    if i == 0:
        expect_error(lambda: Ellipsoid.rho([e2], arr(ora.eye(3))), 'wrongInput', 'direction of another dimension')
    elif i == 1:
        expect_error(lambda: Ellipsoid.rho([e2, e3], d2), 'wrongInput', 'ellipsoids of different dimensions')
        expect_error(lambda: Ellipsoid.rho([e3, e2], arr([[1], [2]])), 'wrongInput', 'ellipsoids of different dimensions')
        expect_error(lambda: Ellipsoid.rho([e2, e3], arr([[1], [2]])), 'wrongInput', 'ellipsoids of different dimensions')
    elif i == 2:
        expect_error(lambda: Ellipsoid.rho([e2], np.array([['a', 'b'], ['c', 'd']])), 'wrongInput', 'text directions')
    elif i == 3:
        expect_error(lambda: Ellipsoid.rho([Ellipsoid()], d2), 'wrongInput', 'empty ellipsoid')
        expect_error(lambda: Ellipsoid.rho([e2, Ellipsoid()], d2), 'wrongInput', 'empty ellipsoid')
    elif i == 4:
        expect_error(lambda: Ellipsoid.rho([hyp([1, 2], 1)], d2), 'wrongInput', 'a hyperplane')
        expect_error(lambda: Ellipsoid.rho(7, d2), 'wrongInput', 'a number')
        expect_error(lambda: Ellipsoid.rho([e2, 1], d2), 'wrongInput', 'a number among ellipsoids')
    elif i == 5:
        expect_error(lambda: Ellipsoid.rho([e2, e2, e2], d2), 'wrongSizes', 'three ellipsoids with two directions')
    else:
        expect_error(lambda: rho_mat(arr([[1, 0], [0, -1]]), arr([[0, 1], [1, 1]]), 1e-6), 'negative', 'negative form')
        expect_error(lambda: rho_mat(arr([[1, 0], [0, -1]]), arr([[0], [1]]), 1e-6), 'negative', 'negative form')
    rec.outcome(i)


CHECK = Check('C08', 'exploration',
              'all positive semidefinite matrices over the alphabets at three scales x centers x all directions over {-1,0,1} and scaled ones, '
              'all combinations of container shapes of ellipsoids and directions; non-trivial: more than one dimension',
              generic('C08') +
              [Stage('shapes', shape_cases, run_shape, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('pairing', pair_cases, run_pair, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
