"""C17: negation."""
import itertools

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import ARRAY_KINDS, Ellipsoid, Hyperplane, Properties, ell, expect, expect_error, flat, hyp, obj_array, reset, shp_of, snap, wrap

ELLS = [None, ([3], [[2]]), ([0, -2], [[4, 1], [1, 3]]), ([1, 0, 2], ora.diag([4, 0, 1])), ([0, 0], [[0, 0], [0, 0]]), ([1, -1, 1, -1], ora.eye(4)),
        ([-1e-9, 1e9], [[1, 0], [0, 1e-3]]), ([0, 0, 0, 0, 9], ora.diag([1, 2, 3, 4, 5]))]
HYPS = [None, ([3], 6), ([-2], 0), ([3, -4], -10), ([0, 0, 5], 1), ([1, 0, -2, 3], 0), ([1e-9, 1e9], 1e-3), ([0, 1], -7)]
SHAPES = [(0,), (2, 0), (0, 3), (1,), (1, 1), (2,), (1, 2), (2, 1), (3,), (3, 1), (1, 3), (2, 2), (1, 2, 2), (2, 1, 2), (2, 3), (1, 1, 1)]


def make(cls, i, **kw):
    if cls == 'E':
        return Ellipsoid(**kw) if ELLS[i] is None else ell(ELLS[i][1], ELLS[i][0], **kw)
    return Hyperplane(**kw) if HYPS[i] is None else hyp(HYPS[i][0], HYPS[i][1], **kw)


def neg(x):
    return [-v + 0. for v in flat(x)]


def pos(x):
    return [v + 0. for v in flat(x)]


def check(got, src, what):
    expect(type(got) is type(src) and got is not src, '{}: not a new object of the same class', what)
    (a, b), (c, d) = got.parameters(), src.parameters()
    expect(np.shape(a) == np.shape(c) and np.shape(b) == np.shape(d), '{}: sizes of the parameters', what)
    expect(pos(a) == neg(c), '{}: {} instead of {}', what, flat(a), neg(c))
    want = pos(d) if isinstance(src, Ellipsoid) else neg(d)
    expect(pos(b) == want, '{}: {} instead of {}', what, flat(b), want)


def arr_cases(tier):
    for cls in 'EH':
        for shp in SHAPES:
            m = int(np.prod(shp))
            lim = 2 if tier == 'quick' else 3
            for pat in itertools.product(range(8), repeat=m) if m <= lim else [[(o + k * i) % 8 for i in range(m)] for o in range(8) for k in (0, 1, 3)]:
                yield [cls, list(shp), list(pat)]
        for k in ARRAY_KINDS:
            for i in range(8):
                yield [cls, k, [i]]


def run_arr(case, rec):
    cls, shp, pat = case
    klass = Ellipsoid if cls == 'E' else Hyperplane
    objs = [make(cls, i, abs_tol=1e-4, rel_tol=1e-2) if i % 2 else make(cls, i) for i in pat]
    if isinstance(shp, str):
        a, want = wrap(objs[0], shp), shp_of(shp)
    else:
        a, want = obj_array(objs, tuple(shp)), tuple(shp)
    before = [snap(o) for o in objs]
    what = 'container {} of {}'.format(shp, pat)
    r = klass.uminus(a)
    expect(np.shape(r) == want, '{}: result of shape {}', what, np.shape(r))
    rr = np.ravel(np.asarray(r, dtype=object))
    expect([snap(o) for o in objs] == before, '{}: the arguments changed', what)
    for g, o in zip(rr, objs):
        check(g, o, what)
        if objs:
            expect(bool(np.ravel(klass.is_empty([g]))[0]) == bool(np.ravel(klass.is_empty([o]))[0]), '{}: emptiness', what)
    r2 = klass.uminus(r)
    expect(np.shape(r2) == want, '{}: result of shape {}', what, np.shape(r2))
    for g, o in zip(np.ravel(np.asarray(r2, dtype=object)), objs):
        (p, q), (s, t) = g.parameters(), o.parameters()
        expect(pos(p) == pos(s) and pos(q) == pos(t), '{}: negating twice', what)
    for o in objs:
        check(-o, o, what + ', unary minus')
        b = snap(o)
        check(-(-o), -o, what + ', unary minus twice')
        expect(snap(o) == b, '{}: the argument changed', what)
    rec.outcome((cls, len(pat)))


def sup_cases(tier):
    for i in range(1, 8):
        for j in range(3):
            yield [i, j]


def run_sup(case, rec):
    """The negated set consists of the negated points: support function and membership."""
    i, j = case
    e, h = make('E', i), make('H', i)
    n = len(ELLS[i][0])
    d = np.array(ora.fl((ora.dirs(n, (0, 1, -1)) * 2)[j::3]), dtype=float).T.copy()
    s1, p1 = Ellipsoid.rho([-e], d)
    s2, p2 = Ellipsoid.rho([e], -d)
    expect(bool(np.all(np.abs(np.ravel(s1) - np.ravel(s2)) < 1e-9 * (1 + np.abs(np.ravel(s1))))), 'support function of the negation')
    v, s = h.parameters()
    v = flat(v)
    m = len(v)
    base = np.array(v) * float(s) / ora.dot(v, v)
    for k in range(m):
        t = np.zeros(m)
        if m > 1:
            t[k], t[(k + 1) % m] = v[(k + 1) % m], -v[k]
        for x in (base, base + t / max(1., float(np.max(np.abs(t)))), base + 1.):
            a = bool(np.ravel(Hyperplane.contains([h], x.reshape(-1, 1)))[0])
            b = bool(np.ravel(Hyperplane.contains([-h], (-x).reshape(-1, 1)))[0])
            c = bool(np.ravel(Hyperplane.contains([-h], x.reshape(-1, 1)))[0])
            expect(a == c, 'negated hyperplane {} contains {}: {}', HYPS[i], x.tolist(), c)
            rec.outcome((a, b))


def own_cases(tier):
    for i in range(len(OWN)):
        for shp in ([1], [2], [2, 2], [1, 3]):
            for conf in (1e-7, 1e-12, 1e-3):
                yield [i, shp, conf]


OWN = [([[4, 0], [0, -.01]], .05), ([[4, .01], [0, 2]], .05), ([[-.01]], .02), ([[0, 0], [0, 0]], 1e-9), ([[4, 1e-5, 0], [0, 1, 0], [0, 0, -1e-5]], 1e-4), ([[1, 0], [0, 1]], 2.)]


def run_own(case, rec):
    """Ellipsoids that are valid within their own tolerance only; the configured one does not matter."""
    i, shp, conf = case
    objs = []
    for k in range(int(np.prod(shp))):
        q, t = OWN[(i + k) % len(OWN)]
        objs.append(Ellipsoid(np.arange(1., len(q) + 1), np.array(q, dtype=float), abs_tol=t))
    Properties.set_abs_tol(conf)
    r = Ellipsoid.uminus(obj_array(objs, tuple(shp)))
    for g, o in zip(np.ravel(r), objs):
        check(g, o, 'negation of {}'.format(o.get_shape_mat().tolist()))
        check(-o, o, 'unary minus of {}'.format(o.get_shape_mat().tolist()))
        check(-(-o), -o, 'unary minus twice of {}'.format(o.get_shape_mat().tolist()))
    rec.outcome((i, conf))


def run_bad(i, rec):
    e, h = make('E', 2), make('H', 3)
    if i == 0:
        expect_error(lambda: Ellipsoid.uminus(h), 'wrongInput', 'a hyperplane')
        expect_error(lambda: Ellipsoid.uminus([e, h]), 'wrongInput', 'a hyperplane')
    elif i == 1:
        expect_error(lambda: Hyperplane.uminus(e), 'wrongInput', 'an ellipsoid')
        expect_error(lambda: Hyperplane.uminus([h, e]), 'wrongInput', 'an ellipsoid')
    else:
        for k in (Ellipsoid, Hyperplane):
            expect_error(lambda: k.uminus(5), 'wrongInput', 'a number')
    rec.outcome(i)


CHECK = Check('C17', 'exploration',
              'all patterns of eight ellipsoids / hyperplanes (including empty and degenerate ones) in arrays of all shapes, negated once and twice; '
              'support functions and membership; non-trivial: an array that is not empty',
              generic('C17') +
              [Stage('arrays', arr_cases, run_arr, nontrivial=lambda c: len(c[2]) > 0, setup=reset),
               Stage('sets', sup_cases, run_sup, setup=reset),
               Stage('own tolerances', own_cases, run_own, setup=reset),
               Stage('rejected', lambda tier: range(3), run_bad, setup=reset)])
