"""C13: containment of concentric ellipsoids."""
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import arr, ARRAY_KINDS, Ellipsoid, Properties, ell, expect, expect_error, hyp, obj_array, reset, truth, wrap


def menu(n, tier):
    big = tier != 'quick'
    if n == 1:
        return [[[x]] for x in (0, 1, 2, 3, 9)]
    if n == 2:
        return ora.psd(2, (0, 1, 2, 3) if not big else (0, 1, 2, 3, 5), (-2, -1, 0, 1, 2) if not big else (-3, -2, -1, 0, 1, 2))
    if n == 3:
        v = [[1, 1, 0], [0, 1, -1], [1, -1, 2]]
        m = ora.psd(3, (0, 1, 2), (0, 1)) if not big else ora.psd(3, (0, 1, 2), (-1, 0, 1))
        m += [ora.outer(x, x) for x in v] + [ora.madd(ora.outer(v[0], v[0]), ora.outer(v[1], v[1])), ora.diag([2, 3, 4]),
                                             ora.madd(ora.diag([1, 1, 1]), ora.outer(v[2], v[2]))]
        return m
    v = [[1, 1, 0, 0], [0, 1, -1, 1], [1, -1, 2, 0], [1, 0, 0, -1]]
    m = [ora.diag(d) for d in ([1, 1, 1, 1], [2, 1, 1, 3], [1, 0, 2, 0], [4, 4, 4, 4])]
    for k in range(1, 5):
        q = ora.diag([0] * 4)
        for x in v[:k]:
            q = ora.madd(q, ora.outer(x, x))
        m += [q, ora.madd(q, ora.eye(4)), ora.mscal(2, q)]
    return m


_m = {}


def get(n, tier):
    if (n, tier) not in _m:
        _m[n, tier] = menu(n, tier)
    return _m[n, tier]


def cases(tier):
    for n in (1, 2, 3, 4):
        for i in range(len(get(n, tier))):
            yield [n, i, tier]


def inside(q1, q2):
    return ora.is_psd(ora.msub(q1, q2))


def run(case, rec):
    n, i, tier = case
    m = get(n, tier)
    q1 = m[i]
    cs = [[0] * n, [3 * (-1) ** j + j for j in range(n)]]
    a = [ell(q1, c) for c in cs]
    for j, q2 in enumerate(m):
        want = inside(q1, q2)
        got = truth(a[(i + j) % 2].is_bigger(ell(q2, cs[j % 2])))
        expect(got == want, 'ellipsoid {} contains {}: {}', q1, q2, got)
        rec.outcome((n, want, ora.rank(q1) == n))
    for c1 in a:
        for c2 in a:
            expect(truth(c1.is_bigger(c2)), 'ellipsoid {} does not contain itself', q1)
    for k in (Fr(1, 2), Fr(99, 100), Fr(101, 100), 2):
        q2 = ora.mscal(k, q1)
        got = truth(a[1].is_bigger(ell(q2, cs[0])))
        expect(got == (k < 1 or not any(map(any, q1))), 'ellipsoid {} contains itself with the shape matrix scaled by {}: {}', q1, float(k), got)


def scale_cases(tier):
    for n in (2, 3):
        for i in range(len(get(n, 'quick'))):
            if n == 2 or i % 4 == 0:
                for s in (-6, 10, 20):
                    yield [n, i, s]


def run_scale(case, rec):
    n, i, s = case
    m = get(n, 'quick')
    k = Fr(2) ** s
    if ora.rank(m[i]) < n:
        m = [q for q in m if ora.rank(q) == n]
        q1 = ora.madd(ora.eye(n), get(n, 'quick')[i])
    else:
        q1 = m[i]
    e = ell(ora.mscal(k, q1))
    for q2 in m[i % 3::3]:
        want = inside(q1, q2)
        got = truth(e.is_bigger(ell(ora.mscal(k, q2), [1] * n)))
        expect(got == want, 'ellipsoid {} contains {} (both scaled by {}): {}', q1, q2, float(k), got)
        rec.outcome((s, want))


def tol_cases(tier):
    for n in (1, 2, 3):
        for i in range(0, len(get(n, 'quick')), 1 if n < 3 else 6):
            for tol in (1e-7, 1e-4, 1e-2):
                for f in (0.3, 3.):
                    yield [n, i, tol, f]


def run_tol(case, rec):
    n, i, tol, f = case
    q = get(n, 'quick')[i]
    if ora.rank(q) < n:
        q = ora.madd(ora.eye(n), q)
    kw = {'abs_tol': tol}
    e, g = ell(q, **kw), ell(ora.mscal(1 + Fr(f) * Fr(str(tol)), q), **kw)
    for conf in (1e-6, 1e-1, 1e-9):
        Properties.set_abs_tol(conf)
        expect(truth(e.is_bigger(g)) == (f < 1), 'shape {} scaled by 1 + {} tolerances ({}): {}', q, f, tol, f >= 1)
        expect(truth(g.is_bigger(e)), 'shape {} scaled by 1 + {} tolerances does not contain the original', q, f)
    rec.outcome(f)


def own_cases(tier):
    for n in (1, 2, 3):
        for sc in (1., 1e-3, 1e-5):
            for t1 in (1e-9, 1e-7, 1e-5, 1e-3):
                for t2 in (1e-9, 1e-7, 1e-5, 1e-3, 1e-1):
                    if t1 < sc / 4:
                        yield [n, sc, t1, t2]


def run_own(case, rec):
    """Ellipsoids of every size that carry different tolerances; the second one may be flat within its own."""
    n, sc, t1, t2 = case
    qs = [q for q in get(n, 'quick') if ora.rank(q) == n][:6]
    for q1 in qs:
        a = ell(arr(q1) * sc, abs_tol=t1)
        lo = min(float(x) for x in ora.jacobi(q1)[0])
        if lo * sc <= 2 * t1:
            continue
        for q2 in qs:
            for k in (Fr(1, 4), Fr(4, 5), Fr(5, 4), 4, 40):
                w = inside(q1, ora.mscal(k, q2))
                if w != inside(q1, ora.mscal(k * Fr(21, 20), q2)) or w != inside(q1, ora.mscal(k * Fr(19, 20), q2)):
                    continue
                for conf in (1e-7, 1e-1):
                    Properties.set_abs_tol(conf)
                    got = truth(a.is_bigger(ell(arr(ora.mscal(k, q2)) * sc, abs_tol=t2)))
                    expect(got == w, 'ellipsoid {} (tolerance {}) contains {} (tolerance {}), both scaled by {}: {}', q1, t1, ora.fl(ora.mscal(k, q2)), t2, sc, got)
                    rec.outcome((n, w))


def bad_cases(tier):
    for i in range(6):
        yield i
    for k in ARRAY_KINDS:
        yield k


def run_bad(i, rec):
    e2, e3 = ell([[2, 1], [1, 2]]), ell(ora.eye(3))
    f2 = ell(ora.eye(2), [5, 5])
    if i == 0:
        expect_error(lambda: e2.is_bigger(e3), 'wrongInput', 'ellipsoids of different dimensions')
        expect_error(lambda: e3.is_bigger(e2), 'wrongInput', 'ellipsoids of different dimensions')
    elif i == 1:
        expect_error(lambda: e2.is_bigger(obj_array([e2, f2], (2,))), 'wrongInput', 'two ellipsoids')
        expect_error(lambda: e2.is_bigger(obj_array([e2, f2], (1, 2))), 'wrongInput', 'two ellipsoids')
        expect_error(lambda: e2.is_bigger([e2, f2, f2]), 'wrongInput', 'three ellipsoids')
    elif i == 2:
        expect_error(lambda: e2.is_bigger(np.empty((0,), dtype=object)), 'wrongInput', 'no ellipsoid')
    elif i == 3:
        expect_error(lambda: e2.is_bigger(Ellipsoid()), 'wrongInput', 'an empty ellipsoid')
        expect_error(lambda: Ellipsoid().is_bigger(e2), 'wrongInput', 'an empty ellipsoid')
    elif i == 4:
        expect_error(lambda: e2.is_bigger(hyp([1, 2], 1)), 'wrongInput', 'a hyperplane')
        expect_error(lambda: e2.is_bigger(3.), 'wrongInput', 'a number')
    elif i == 5:
        expect_error(lambda: ell([[0]]).is_bigger(ell([[0, 0], [0, 0]])), 'wrongInput', 'points of different dimensions')
    else:
        expect(truth(e2.is_bigger(wrap(f2, i))), 'container {}', i)
        expect(not truth(f2.is_bigger(wrap(e2, i))), 'container {}', i)
    rec.outcome(i)


def uneven_cases(tier):
    for n in (2, 3):
        for i in range(len(get(n, 'quick'))):
            yield [n, i]


def run_uneven(case, rec):
    """Shape matrices that are symmetric only up to the tolerance: clear verdicts are the same."""
    n, i = case
    m = get(n, 'quick')
    q1 = m[i]

    def uneven(q, d):
        a = np.array(ora.fl(q), dtype=float)
        a[0, n - 1] += d
        return Ellipsoid(np.zeros((n,)), a)
    e = uneven(q1, 1e-9)
    expect(truth(e.is_bigger(e)), 'uneven ellipsoid {} does not contain itself', q1)
    for q2 in m[i % 3::3]:
        for s in (Fr(9, 10), Fr(11, 10)):
            q = ora.mscal(s, q2)
            want = inside(q1, q)
            if want == inside(q1, ora.mscal(s * Fr(101, 100), q2)) == inside(q1, ora.mscal(s * Fr(99, 100), q2)):
                got = truth(e.is_bigger(uneven(q, -1e-8)))
                expect(got == want, 'ellipsoid {} contains {} (both with rounding errors): {}', q1, q, got)
                rec.outcome((want, ora.rank(q1) == n))


def asym_cases(tier):
    for n in (2, 3):
        for i in range(len(get(n, 'quick'))):
            for which in (0, 1, 2):
                yield [n, i, which]


def run_asym(case, rec):
    """Ellipsoids whose shape matrix is symmetric only within their own large tolerance (0.05)."""
    n, i, which = case
    m = get(n, 'quick')
    q1 = m[i]
    if ora.jacobi(q1)[0][0] < 0.2:
        rec.outcome('thin')
        return

    def mk(q, own):
        a = np.array(ora.fl(q), dtype=float)
        if not own:
            return Ellipsoid(a)
        a[0, n - 1] += 0.01
        return Ellipsoid(np.zeros((n,)), a, abs_tol=0.05)

    def true(q, own):
        d = [[Fr(1, 200) if own and {r, c} == {0, n - 1} else Fr(0) for c in range(n)] for r in range(n)]
        return ora.madd(q, d)
    o1, o2 = which != 1, which != 0
    e = mk(q1, o1)
    expect(truth(e.is_bigger(e)), 'uneven ellipsoid {} does not contain itself', q1)
    for q2 in m[i % 3::3]:
        for s in (Fr(1, 2), 2):
            q = ora.mscal(s, q2)
            want = inside(true(q1, o1), true(q, o2))
            if all(inside(true(q1, o1), ora.mscal(k, true(q, o2))) == want for k in (Fr(17, 20), Fr(6, 5))):
                got = truth(e.is_bigger(mk(q, o2)))
                expect(got == want, 'ellipsoid {} contains {} (asymmetric within own tolerances: {} {}): {}', q1, ora.fl(q), o1, o2, got)
                rec.outcome(want)


CHECK = Check('C13', 'exploration',
              'all ordered pairs of positive semidefinite matrices from the menus of each dimension, scaled pairs, ratios around the tolerance, containers; '
              'non-trivial: dimension above one',
              generic('C13') +
              [Stage('pairs', cases, run, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('scales', scale_cases, run_scale, setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('own tolerances', own_cases, run_own, setup=reset),
               Stage('uneven', uneven_cases, run_uneven, setup=reset),
               Stage('asymmetric', asym_cases, run_asym, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
