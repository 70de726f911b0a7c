"""C14: polar ellipsoids."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import ARRAY_KINDS, Ellipsoid, Properties, arr, close, ell, expect, expect_error, hyp, obj_array, reset, shp_of, snap, wrap


def reference(q, c):
    """Exact polar of c + {Q} with the origin strictly inside: center, shape."""
    qi = ora.inv(q)
    w = ora.mv(qi, c)
    k = 1 - ora.dot(c, w)
    return ora.scal(-1 / Fr(k), w), ora.madd(ora.mscal(1 / Fr(k), qi), ora.mscal(1 / Fr(k) ** 2, ora.outer(w, w)))


def shapes(n, tier):
    big = tier != 'quick'
    if n == 1:
        return [[[Fr(x)]] for x in (1, 2, 9)]
    if n == 2:
        return ora.pd(2, (1, 2, 4, 9), (-2, -1, 0, 1, 3))
    if n == 3:
        return ora.pd(3, (1, 2, 4) if not big else (1, 2, 3, 5), (-1, 0, 1))
    m = ora.pd(4, (2, 3), (0, 1) if not big else (-1, 0, 1))
    return m if big else m[::17]


def centers(n, q):
    """Rational centers with the origin strictly inside, from the center out to close to the boundary."""
    yield [Fr(0)] * n
    qi = ora.inv(q)
    for d in ora.dirs(n, (0, 1, -1)) if n < 3 else [[1] + [0] * (n - 1), [0] * (n - 1) + [-1], [1, -1, 2, -1][:n], [-2, 1, 1, 3][:n]]:
        f = ora.quad(qi, d)
        r = Fr(1) / Fr(math.sqrt(float(f))).limit_denominator(1000)
        for k in (Fr(1, 3), Fr(4, 5), Fr(1, 10 ** 3)) if n > 2 else (Fr(1, 3), Fr(4, 5), Fr(19, 20), Fr(1, 10), Fr(1, 10 ** 3), Fr(1, 10 ** 5)):
            c = ora.scal(k * r, d)
            if ora.quad(qi, c) < Fr(9, 10):
                yield c


def cases(tier):
    for n in (1, 2, 3, 4):
        for i in range(len(shapes(n, tier))):
            yield [n, i, tier]


_m = {}


def check(e, q, c, what, tol=1e-10):
    rc, rq = reference(q, c)
    gc, gq = e.parameters()
    sc = max(1., max(abs(float(x)) for r in rq for x in r))
    close(np.ravel(gc), rc, tol, what + ': center', sc)
    close(gq, rq, tol, what + ': shape matrix', sc)


def run(case, rec):
    n, i, tier = case
    if (n, tier) not in _m:
        _m[n, tier] = shapes(n, tier)
    q = _m[n, tier][i]
    ds = arr(ora.dirs(n, (0, 1, -1)))
    for c in centers(n, q):
        what = 'shape {} center {}'.format(ora.fl(q), ora.fl(c))
        e = ell(q, c)
        before = snap(e)
        r = Ellipsoid.polar(e)
        expect(np.shape(r) == (), '{}: result of shape {}', what, np.shape(r))
        p = r.flat[0] if isinstance(r, np.ndarray) else r
        expect(isinstance(p, Ellipsoid) and p is not e, '{}: not a new ellipsoid', what)
        check(p, q, c, what)
        expect(snap(e) == before, '{}: the argument changed', what)
        # from the definition: the farthest points of the polar have support value one over the original
        pc, pq = p.parameters()
        root = arr(ora.sqrtm(pq.tolist()))
        y = pc + (ds / np.sqrt(np.sum(ds ** 2, axis=1, keepdims=True))) @ root
        sup = y @ arr(c) + np.sqrt(np.sum((y @ arr(q)) * y, axis=1))
        expect(float(np.max(np.abs(sup - 1))) < 1e-8, '{}: scalar products with boundary points of the polar reach {}', what, float(np.max(sup)))
        pp = Ellipsoid.polar([p])[0]
        sc = max(1., max(abs(float(x)) for r in q for x in r))
        close(np.ravel(pp.parameters()[0]), c, 1e-9, what + ': center of the polar of the polar', sc)
        close(pp.parameters()[1], q, 1e-9, what + ': shape matrix of the polar of the polar', sc)
        f = getattr(e, '_get_scalar_polar_internal', None)
        if f is not None:
            check(f(False), q, c, what + ', quadratic form method')
            check(f(True), q, c, what + ', robust method')
        rec.outcome((n, not any(c)))


POOL = [([[2, 1], [1, 3]], [Fr(1, 2), Fr(1, 3)]), (ora.diag([4, 1, 9]), [1, 0, -1]), ([[9]], [-1]), ([[1, 0], [0, 4]], [0, 0]), (ora.eye(4), [0, 0, 0, Fr(1, 2)])]
SHAPES = [(0,), (2, 0), (1,), (1, 1), (2,), (1, 2), (2, 1), (3,), (3, 1), (2, 2), (1, 2, 2), (2, 1, 2), (2, 3)]


def arr_cases(tier):
    for shp in SHAPES:
        m = int(np.prod(shp))
        for pat in itertools.product(range(5), repeat=m) if m <= 2 else [[(o + k * i) % 5 for i in range(m)] for o in range(5) for k in (0, 1, 2)]:
            yield [list(shp), list(pat)]
    for k in ARRAY_KINDS:
        for i in range(5):
            yield [k, [i]]


def run_arr(case, rec):
    shp, pat = case
    es = [ell(*POOL[i]) for i in pat]
    if isinstance(shp, str):
        a, want = wrap(es[0], shp), shp_of(shp)
    else:
        a, want = obj_array(es, tuple(shp)), tuple(shp)
    before = [snap(e) for e in es]
    r = Ellipsoid.polar(a)
    expect(np.shape(r) == want, 'container {}: result of shape {}', shp, np.shape(r))
    for p, i in zip(np.ravel(np.asarray(r, dtype=object)), pat):
        check(p, POOL[i][0], POOL[i][1], 'container {} of {}'.format(shp, pat))
    expect([snap(e) for e in es] == before, 'container {}: the arguments changed', shp)
    rec.outcome((str(shp), len(set(pat))))


def bad_cases(tier):
    for pat in itertools.product((0, 1, 2), repeat=3):
        if 2 in pat or 1 in pat:
            yield ['deg'] + list(pat)
    for i in range(3):
        yield ['type', i]
    for tol in (1e-7, 1e-3):
        for f in (0.5, 2.):
            for n in (1, 2, 3):
                yield ['tol', tol, f, n]


def run_bad(case, rec):
    if case[0] == 'deg':
        m = [POOL[0], ([[1, 1], [1, 1]], [0, 0]), ([[0, 0], [0, 2]], [1, 0])]
        a = obj_array([ell(*m[i]) for i in case[1:]], (3,))
        expect_error(lambda: Ellipsoid.polar(a), 'degenerateEllipsoid', 'array with a degenerate ellipsoid')
        expect_error(lambda: Ellipsoid.polar(a.reshape(3, 1)), 'degenerateEllipsoid', 'array with a degenerate ellipsoid')
    elif case[0] == 'type':
        bad = [hyp([1, 2], 1), 5, [ell([[1]]), 'x']][case[1]]
        expect_error(lambda: Ellipsoid.polar(bad), 'wrongInput', 'not ellipsoids')
    else:
        _, tol, f, n = case
        q = ora.diag([1] * n)
        q[n - 1][n - 1] = f * tol
        e = ell(q, abs_tol=tol)
        for conf in (1e-9, 1e-1):
            Properties.set_abs_tol(conf if f < 1 else 1e-9)
            if f < 1:
                expect_error(lambda: Ellipsoid.polar([e]), 'degenerateEllipsoid', 'degenerate within its tolerance')
            else:
                w = ora.diag([1] * n)
                w[n - 1][n - 1] = 1 / (f * tol)
                close(Ellipsoid.polar([e])[0].parameters()[1], w, 1e-9, 'thin ellipsoid', 1 / tol)
    rec.outcome(case[0])


def close_cases(tier):
    for n in (1, 2, 3):
        qs = shapes(n, 'quick')
        for i in range(0, len(qs), max(1, len(qs) // (6 if tier == 'quick' else 40))):
            for delta in (0.05, 5e-3, 5e-4, 1e-5):
                for tol in (1e-8, 1e-6, 1e-3, 1e-2, 0.05):
                    yield [n, i, delta, tol]


def run_close(case, rec):
    """Origin close to the boundary, within the absolute tolerance of the ellipsoid or not."""
    n, i, delta, tol = case
    q = shapes(n, 'quick')[i]
    if float(min(ora.jacobi(q)[0])) <= tol:
        return
    for d in ora.dirs(n, (0, 1, -1)):
        t = math.sqrt((1 - delta) / float(ora.quad(ora.inv(q), d)))
        c = [Fr(float(t * x)) for x in d]
        e = ell(q, c, abs_tol=tol)
        what = 'shape {} center {} tolerance {}'.format(ora.fl(q), ora.fl(c), tol)
        err = 1e-13 / delta
        check(Ellipsoid.polar([e])[0], q, c, what, err)
        f = getattr(e, '_get_scalar_polar_internal', None)
        if f is not None:
            check(f(False), q, c, what + ', quadratic form method', err)
            check(f(True), q, c, what + ', robust method', err)
        rec.step()
    rec.outcome((n, delta > tol))


def scale_cases(tier):
    for n in (1, 2, 3):
        qs = shapes(n, 'quick')
        for i in range(0, len(qs), max(1, len(qs) // 12)):
            for k in range(-16, 17, 4):
                yield [n, i, k]


def run_scale(case, rec):
    """Small and large ellipsoids, their tolerances scaled alike."""
    n, i, k = case
    s = Fr(2) ** k
    q = ora.mscal(s * s, shapes(n, 'quick')[i])
    for c in list(centers(n, shapes(n, 'quick')[i]))[::3]:
        c = ora.scal(s, c)
        Properties.set_abs_tol(1e-7 * float(min(s * s, 1 / s / s)))
        e = ell(q, c)
        p = Ellipsoid.polar([e])[0]
        rc, rq = reference(q, c)
        close(np.ravel(p.parameters()[0]), rc, 1e-9, 'scale 2**{}: center of the polar of {} at {}'.format(k, ora.fl(q), ora.fl(c)), float(1 / s))
        close(p.parameters()[1], rq, 1e-9, 'scale 2**{}: shape of the polar of {} at {}'.format(k, ora.fl(q), ora.fl(c)), float(1 / s / s))
        rec.step()
    rec.outcome(k)


CHECK = Check('C14', 'exploration',
              'all positive definite integer shapes over small alphabets x rational centers up to close to the boundary, arrays of all shapes and patterns, '
              'degenerate members; non-trivial: dimension above one',
              generic('C14') +
              [Stage('polars', cases, run, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('arrays', arr_cases, run_arr, setup=reset),
               Stage('close to the boundary', close_cases, run_close, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('scales', scale_cases, run_scale, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
