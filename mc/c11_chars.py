"""C11: characteristics of ellipsoids."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import ARRAY_KINDS, Ellipsoid, Properties, arr, close_flat, ell, expect, expect_error, gamma_ball, hyp, obj_array, reset, shp_of, wrap


def ref(q, n, tol=1e-6):
    """-> rank, trace, min, max, volume, degenerate (reference values; the smallest eigenvalue is not near tol)."""
    w = ora.jacobi(q)[0]
    deg = min(w) <= tol
    return {'rank': ora.rank(q), 'trace': float(sum(q[i][i] for i in range(n))), 'min': w[0], 'max': w[-1],
            'volume': 0. if deg else math.sqrt(float(ora.det(q))) * gamma_ball(n), 'deg': deg}


def center(n, k):
    return [[0] * n, [5 * (i + 1) * (-1) ** i for i in range(n)]][k]


def check_arr(a, refs, dims, shp, what):
    """a: container; refs: reference values in order."""
    def shaped(got, want, name):
        expect(np.shape(got) == shp, '{}: {} of shape {} instead of {}', what, name, np.shape(got), shp)
        expect(np.ravel(got).tolist() == want, '{}: {} {} instead of {}', what, name, np.ravel(got).tolist(), want)

    def listed(got, key):
        expect(np.shape(got) == (len(refs),), '{}: {} of shape {}', what, key, np.shape(got))
        for g, r in zip(got, refs):
            sc = max(abs(r['max']), 1e-12) if key != 'volume' else max(r['volume'], 1e-300)
            close_flat([g], [r[key]], 1e-9 if key == 'volume' else 1e-12, what + ': ' + key, sc)

    shaped(Ellipsoid.dimension(a), dims, 'dimension')
    d, r = Ellipsoid.dimension(a, return_rank=True)
    shaped(d, dims, 'dimension')
    shaped(r, [x['rank'] for x in refs], 'rank')
    d, r = Ellipsoid.dimension(a, True)
    shaped(r, [x['rank'] for x in refs], 'rank')
    shaped(Ellipsoid.is_empty(a), [x == 0 for x in dims], 'emptiness')
    if 0 not in dims:
        shaped(Ellipsoid.is_degenerate(a), [x['deg'] for x in refs], 'degeneracy')
        listed(Ellipsoid.trace(a), 'trace')
        listed(Ellipsoid.min_eig(a), 'min')
        listed(Ellipsoid.max_eig(a), 'max')
        listed(Ellipsoid.volume(a), 'volume')
    else:
        for f in (Ellipsoid.is_degenerate, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.volume):
            expect_error(lambda: f(a), 'emptyEllipsoid', what + ': array with an empty ellipsoid')


def mat_cases(tier):
    big = tier != 'quick'
    for n, ds, os in ((1, (0, 1, 2, 9), (0,)), (2, (0, 1, 2, 4, 9), (-6, -3, -2, -1, 0, 1, 2, 3)),
                      (3, (0, 1, 2, 3) if not big else (0, 1, 2, 3, 5), (-1, 0, 1) if not big else (-2, -1, 0, 1, 2)),
                      (4, (1, 2) if not big else (0, 1, 2), (0, 1) if not big else (-1, 0, 1))):
        for q in ora.psd(n, ds, os):
            yield [n, q]
    for n in range(4, 9 if tier == 'quick' else 17):
        base = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        for m in range(1, n + 2):
            q = ora.diag([0] * n)
            for k in range(m):
                v = [(k * i + i * i + k) % 5 - 2 for i in range(n)]
                q = ora.madd(q, ora.outer(v, v))
            yield [n, q]
            yield [n, ora.madd(q, base)]
        yield [n, ora.diag([i + 1 for i in range(n)])]
        yield [n, base]


def run_mat(case, rec):
    n, q = case
    r = ref(q, n)
    for k in (0, 1):
        check_arr([ell(q, center(n, k))], [r], [n], (1,), 'shape {}'.format(q))
    a = obj_array([ell(q, center(n, 1)), ell(ora.mscal(4, q))], (1, 2))
    check_arr(a, [r, ref(ora.mscal(4, q), n)], [n, n], (1, 2), 'shape {} and four times it'.format(q))
    s = Fr(2) ** 30
    r2 = ref(ora.mscal(s, q), n)
    check_arr([ell(ora.mscal(s, q), center(n, 1))], [r2], [n], (1,), 'shape {} scaled'.format(q)) if ora.rank(q) == n else None
    rec.outcome((n, r['rank'], r['deg']))


def spec_cases(tier):
    """Smallest eigenvalue around the tolerance."""
    for n in range(1, 7 if tier == 'quick' else 9):
        for tol in (1e-8, 1e-6, 1e-3):
            for f in (0, 0.2, 0.9, 1.1, 5.):
                for pos in range(n):
                    for k in (0, 1) if n > 1 else (0,):
                        yield [n, tol, f, pos, k]


def run_spec(case, rec):
    n, tol, f, pos, k = case
    w = [Fr(i + 1) for i in range(n)]
    w[pos] = Fr(f).limit_denominator(10) * Fr(str(tol)) if f else Fr(0)
    q = ora.spread(n, w, k)[0]
    srt = sorted(float(x) for x in w)
    deg = f < 1
    for conf in (1e-6, 1e-1, 1e-9):
        reset()
        e = ell(q, center(n, 1), abs_tol=tol)
        Properties.set_abs_tol(conf)
        what = 'spectrum {}, tolerance {}, configured {}'.format([float(x) for x in w], tol, conf)
        expect(Ellipsoid.is_degenerate([e]).tolist() == [deg], '{}: degenerate is {}', what, not deg)
        expect(np.shape(Ellipsoid.is_degenerate(e)) == () and bool(Ellipsoid.is_degenerate(e)) == deg, '{}: degenerate is {}', what, not deg)
        v = Ellipsoid.volume([e])
        want = 0. if deg else math.sqrt(math.prod(srt)) * gamma_ball(n)
        close_flat(v, [want], 1e-7, what + ': volume', max(want, 1e-300))
        close_flat(Ellipsoid.trace([e]), [sum(srt)], 1e-12, what + ': trace')
        close_flat(Ellipsoid.min_eig([e]), [srt[0]], 1e-13, what + ': smallest eigenvalue', n)
        close_flat(Ellipsoid.max_eig([e]), [srt[-1]], 1e-13, what + ': largest eigenvalue', n)
    rec.outcome((f < 1, n))


POOL = [(2, [[1, 0], [0, 4]]), (3, [[2, 1, 0], [1, 3, 0], [0, 0, 5]]), (1, [[0]]), (2, [[1, 2], [2, 4]]), (4, ora.diag([9, 4, 1, 16])), (0, None)]
SHAPES = [(0,), (2, 0), (1,), (1, 1), (2,), (1, 2), (2, 1), (3,), (3, 1), (1, 3), (2, 2), (1, 2, 2), (2, 1, 2), (4,), (2, 3), (6,)]


def array_cases(tier):
    for shp in SHAPES:
        m = int(np.prod(shp))
        lim = 3 if tier == 'quick' else 4
        if m <= lim:
            for pat in itertools.product(range(6), repeat=m):
                yield [list(shp), list(pat)]
        else:
            for o in range(6):
                yield [list(shp), [(o + i) % 5 for i in range(m)]]
                yield [list(shp), [(o + 5 * i) % 6 for i in range(m)]]
    for kind in ARRAY_KINDS:
        for i in range(6):
            yield [kind, [i]]


def build(i):
    n, q = POOL[i]
    return Ellipsoid() if n == 0 else ell(q, center(n, i % 2))


ZERO = {'rank': 0, 'deg': None}


def run_array(case, rec):
    shp, pat = case
    refs = [ref(POOL[i][1], POOL[i][0]) if POOL[i][0] else ZERO for i in pat]
    dims = [POOL[i][0] for i in pat]
    if isinstance(shp, str):
        check_arr(wrap(build(pat[0]), shp), refs, dims, shp_of(shp), 'container {} of object {}'.format(shp, pat))
    else:
        check_arr(obj_array([build(i) for i in pat], tuple(shp)), refs, dims, tuple(shp), 'array of shape {} of objects {}'.format(shp, pat))
    rec.outcome((len(pat), 0 in dims))


def neg_cases(tier):
    for n in (1, 2, 3, 4):
        for tol in (1e-6, 1e-3):
            for f in (-0.9, -0.5, -0.1, -1e-3):
                for pos in range(n):
                    for m in (1, 2):
                        yield [n, tol, f, pos, m]


def run_neg(case, rec):
    """Smallest eigenvalues slightly below zero."""
    n, tol, f, pos, m = case
    w = [float(i + 1) for i in range(n)]
    for k in range(min(m, n)):
        w[(pos + k) % n] = f * tol * (1 + k / 64.)
    e = [ell(np.diag(w), abs_tol=tol), ell(np.diag(w[::-1]), abs_tol=tol)]
    for conf in (1e-6, 1e-1):
        Properties.set_abs_tol(conf)
        what = 'spectrum {}, tolerance {}'.format(w, tol)
        close_flat(Ellipsoid.min_eig(e), [min(w)] * 2, 1e-15, what + ': smallest eigenvalue', max(map(abs, w)))
        close_flat(Ellipsoid.max_eig(e), [max(w)] * 2, 1e-15, what + ': largest eigenvalue', max(map(abs, w)))
        close_flat(Ellipsoid.trace(e), [sum(w)] * 2, 1e-14, what + ': trace', max(map(abs, w)))
        close_flat(Ellipsoid.volume(e), [0.] * 2, 0., what + ': volume')
        expect(Ellipsoid.is_degenerate(e).tolist() == [True, True], '{}: not degenerate', what)
    rec.outcome(n)


def mix_cases(tier):
    tols = (1e-8, 1e-5, 1e-2)
    for r in (2, 3):
        for ts in itertools.product(tols, repeat=r):
            for es in itertools.product((0, 1, 2, 3), repeat=r):
                if r == 2 or tier != 'quick' or (sum(es) + sum(tols.index(t) for t in ts)) % 3 == 0:
                    yield [list(ts), list(es)]


def run_mix(case, rec):
    """Every element of an array is judged with its own tolerance."""
    ts, es = case
    lows = [[1e-10, 1e-7, 1e-3, 1.][i] for i in es]
    a = [ell(ora.diag([2, lo]) if k % 2 == 0 else ora.diag([3, lo, 1]), abs_tol=t) for k, (t, lo) in enumerate(zip(ts, lows))]
    want = [lo <= t for t, lo in zip(ts, lows)]
    vols = [0. if w else (math.sqrt(2 * lo) * gamma_ball(2) if k % 2 == 0 else math.sqrt(3 * lo) * gamma_ball(3)) for k, (w, lo) in enumerate(zip(want, lows))]
    for conf in (1e-6, 1e-1):
        Properties.set_abs_tol(conf)
        for shp in ((len(a),), (len(a), 1), (1, len(a))):
            b = obj_array(a, shp)
            what = 'smallest eigenvalues {} with tolerances {}'.format(lows, ts)
            r = Ellipsoid.is_degenerate(b)
            expect(np.shape(r) == shp and np.ravel(r).tolist() == want, '{}: degenerate {}', what, np.ravel(r).tolist())
            close_flat(Ellipsoid.volume(b), vols, 1e-9, what + ': volumes')
            close_flat(Ellipsoid.min_eig(b), lows, 1e-12, what + ': smallest eigenvalues')
    rec.outcome(tuple(want))


def bad_cases(tier):
    for i in range(4):
        yield i


def run_bad(i, rec):
    e = ell([[1]])
    bad = [7, [e, 1], [hyp([1, 2], 3)], np.array([1., 2.])][i]
    for f in (Ellipsoid.dimension, Ellipsoid.is_empty, Ellipsoid.is_degenerate, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.volume):
        expect_error(lambda: f(bad), 'wrongInput', 'not an array of ellipsoids')
    rec.outcome(i)


CHECK = Check('C11', 'exploration',
              'all positive semidefinite integer matrices over small alphabets in dimensions 1..4, sums of outer products in 4..8, spectra around the '
              'tolerance, all patterns of objects in arrays of all shapes; non-trivial: dimension above one or several objects',
              generic('C11') +
              [Stage('matrices', mat_cases, run_mat, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('tolerance', spec_cases, run_spec, setup=reset),
               Stage('negative', neg_cases, run_neg, setup=reset),
               Stage('arrays', array_cases, run_array, setup=reset),
               Stage('mixed', mix_cases, run_mix, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
