"""C06: equality of ellipsoids and hyperplanes: a tolerance relation on center and square root of the shape matrix."""
import itertools
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import (ARRAY_KINDS, Ellipsoid, Hyperplane, arr, ell, expect, expect_error, fail, hyp, obj_array, reset, truth, wrap)


def verdict(cls, a, b, prop=False):
    """All the ways to ask; they have to agree."""
    is_eq, report = cls.is_equal(a, b, prop) if prop else cls.is_equal(a, b)
    is_eq = np.asarray(is_eq)
    expect(is_eq.dtype.kind == 'b', 'verdicts are not booleans: {!r}', is_eq)
    expect(isinstance(report, str) and (report == '') == bool(np.all(is_eq)),
           'report {!r} does not match the verdict {}', report, is_eq.tolist())
    return is_eq


def scalar(cls, a, b, prop=False):
    r = verdict(cls, a, b, prop)
    expect(r.size == 1, 'one verdict expected: {!r}', r)
    r = bool(r.ravel()[0])
    if not prop:
        expect(bool(a == b) == r, 'operator == disagrees with the equality verdict')
        r2, _ = cls.eq(a, b)
        expect(bool(np.asarray(r2).ravel()[0]) == r, 'eq disagrees with is_equal')
    back = verdict(cls, b, a, prop)
    expect(bool(back.ravel()[0]) == r, 'equality is not symmetric')
    return r


# -- tolerance semantics ---------------------------------------------------------------------
S_MENU = {
    1: [[[2]]],
    2: [[[2, 0], [0, 1]], [[2, 1], [1, 3]], [[0, 0], [0, 1]], [[100, 1], [1, 100]]],
    3: [[[2, 1, 0], [1, 3, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 0], [0, 0, 0]]],
}
C_MENU = {1: [[0], [5]], 2: [[0, 0], [3, -200]], 3: [[1, 0, -4]]}
TOLS = [(1e-4, 1e-4), (1e-4, 1e-2), (1e-2, 1e-4)]
RELS = [(1e-12, 1e-12), (1e-12, 0.3), (0.3, 1e-12), (0.3, 0.3), (1e-3, 1e-3)]


def tol_cases(tier):
    for n in S_MENU:
        for si in range(len(S_MENU[n])):
            for ci in range(len(C_MENU[n])):
                places = [['c', i, 0] for i in range(n)] + [['s', i, j] for i in range(n) for j in range(i, n)]
                for pl in places:
                    for f in (0.3, 3, 50, 5000):
                        for at in TOLS:
                            for rt in RELS if (tier != 'quick' or n < 3) else RELS[::2]:
                                yield [n, si, ci, pl, f, list(at), list(rt)]


def elem_ok(x, y, t, r):
    """-> True / False / None when too close to the boundary."""
    d = abs(x - y)
    if d < 0.9 * t or d < 1e-11:
        return True
    if d < 1.1 * t:
        return None
    q = 2 * d / (abs(x) + abs(y))
    if q < 0.9 * r:
        return True
    if q < 1.1 * r:
        return None
    return False


def oracle(c1, s1, c2, s2, t, r):
    vals = [elem_ok(x, y, t, r) for x, y in zip(c1, c2)]
    vals += [elem_ok(x, y, t, r) for ra, rb in zip(s1, s2) for x, y in zip(ra, rb)]
    if False in vals:
        return False
    return None if None in vals else True


def run_tol(case, rec):
    n, si, ci, pl, f, at, rt = case
    s1 = ora.fl(S_MENU[n][si])
    c1 = ora.fl(C_MENU[n][ci])
    s2 = [list(r) for r in s1]
    c2 = list(c1)
    d = f * 1e-4
    if pl[0] == 'c':
        c2[pl[1]] += d
    else:
        s2[pl[1]][pl[2]] += d
        if pl[1] != pl[2]:
            s2[pl[2]][pl[1]] += d
    if min(ora.jacobi(s2)[0]) < -1e-12:
        return
    q1, q2 = ora.mm(s1, s1), ora.mm(s2, s2)
    a = ell(q1, c1, abs_tol=at[0], rel_tol=rt[0])
    b = ell(q2, c2, abs_tol=at[1], rel_tol=rt[1])
    want = oracle(c1, s1, c2, s2, min(at), min(rt))
    if want is None:
        rec.outcome('boundary')
        return
    rec.outcome(want)
    got = scalar(Ellipsoid, a, b)
    expect(got == want, 'equality verdict {} instead of {}', got, want)
    expect(scalar(Ellipsoid, a, a) and scalar(Ellipsoid, b, b), 'equality is not reflexive')
    # the smallest tolerance is used wherever it stands
    for one, two, w in (([a, a], [a, b], [True, want]), ([b, a], [a, a], [want, True]), ([a], [a, a, b], [True, True, want]), ([a, a, b], [a], [True, True, want])):
        r = Ellipsoid.is_equal(one, two)[0]
        expect(np.ravel(r).tolist() == w, 'equality verdicts of arrays {} instead of {}', np.ravel(r).tolist(), w)
    # the same for copies
    expect(scalar(Ellipsoid, a, Ellipsoid.get_copy([a]).flat[0]), 'an object differs from its copy')


# -- small objects ---------------------------------------------------------------------------
SMALL = [q for q in ora.psd(2, (0, 1, 4), (0, 1, -1, -2))]


def root2(q):
    """Square root of a psd matrix of size 2, in closed form."""
    (a, b), (_, d) = q
    s = max(a * d - b * b, 0) ** 0.5
    t = (a + d + 2 * s) ** 0.5
    return [[0., 0.], [0., 0.]] if t == 0 else [[(a + s) / t, b / t], [b / t, (d + s) / t]]


def small_cases(tier):
    for i in range(len(SMALL)):
        for j in range(i, len(SMALL)):
            yield [i, j]


def run_small(case, rec):
    """Shape matrices of the size of the tolerances: their square roots are still compared entry by entry."""
    i, j = case
    p, q = root2(SMALL[i]), root2(SMALL[j])
    for k in range(-14, 3, 2):
        for c in (0., 1.):
            sq, sr = 4. ** k, 2. ** k
            cs = [c, -c]
            a, b = ell(ora.mscal(sq, ora.fl(SMALL[i])), cs), ell(ora.mscal(sq, ora.fl(SMALL[j])), cs)
            vals = [elem_ok(x * sr, y * sr, 1e-7, 1e-5) for ra, rb in zip(p, q) for x, y in zip(ra, rb)]
            if False not in vals and None in vals:
                rec.outcome('boundary')
                continue
            want = False not in vals
            rec.outcome(want)
            got = scalar(Ellipsoid, a, b)
            expect(got == want, 'ellipsoids with shapes {} and {} times 4^{}: equality verdict {}', SMALL[i], SMALL[j], k, got)


# -- objects valid within their own tolerance ------------------------------------------------
OWNQ = [([[4, 0], [0, 1]], 1e-7), ([[4, 0], [0, -.01]], .05), ([[4, 0], [0, -.02]], .05), ([[4, 0], [0, 0]], 1e-7), ([[4, .01], [0, 2]], .05), ([[4, 0.02], [.01, 2]], .2),
        ([[4, .01], [.01, 2]], 1e-4), ([[-.01, 0], [0, -.01]], .02), ([[1, 0], [0, 1]], .5), ([[4, 0], [0, -1e-6]], 1e-5)]


def own_cases(tier):
    for i in range(len(OWNQ)):
        for j in range(i, len(OWNQ)):
            for c in ([0., 0.], [0., 3.]):
                yield [i, j, c]


def run_own(case, rec):
    """Objects that are valid ellipsoids within their own tolerance can be compared with any other."""
    i, j, c = case
    a, b = (Ellipsoid(np.array(v), np.array(OWNQ[k][0], dtype=float), abs_tol=OWNQ[k][1]) for k, v in ((i, [0., 0.]), (j, c)))
    got = scalar(Ellipsoid, a, b)
    rec.outcome(got)
    if i == j:
        expect(got == (c == [0., 0.]), 'ellipsoid {} and itself with center {}: equality verdict {}', OWNQ[i], c, got)
    elif c != [0., 0.]:
        expect(not got, 'ellipsoids with different centers: equality verdict {}', got)
    elif np.max(np.abs(np.array(OWNQ[i][0]) - np.array(OWNQ[j][0]))) > 0.9:
        expect(not got, 'ellipsoids {} and {}: equality verdict {}', OWNQ[i], OWNQ[j], got)
    scalar(Ellipsoid, a, b, True)
    expect(scalar(Ellipsoid, a, a) and scalar(Ellipsoid, b, b), 'equality is not reflexive')
    r = Ellipsoid.is_equal([a, b, a], [a, a, b])[0]
    expect(np.ravel(r).tolist()[0] and np.ravel(r)[1] == np.ravel(r)[2] == got, 'verdicts in an array: {} instead of {}', np.ravel(r).tolist(), [True, got, got])


# -- distinct objects ------------------------------------------------------------------------
def menu():
    m = [None]
    for q in ora.psd(1, (0, 1, 2), (0,)):
        for c in ([0], [1]):
            m.append((c, q))
    for q in ora.psd(2, (0, 1, 2), (-1, 0, 1)):
        for c in ([0, 0], [1, 0], [0, -1]):
            m.append((c, q))
    for q in (ora.eye(3), ora.diag([1, 0, 2]), [[2, 1, 0], [1, 2, 0], [0, 0, 1]], [[2, 0, 1], [0, 1, 0], [1, 0, 2]]):
        for c in ([0, 0, 0], [0, 0, 1]):
            m.append((c, q))
    return m


MENU = menu()


def mk(i):
    return Ellipsoid() if MENU[i] is None else ell(MENU[i][1], MENU[i][0])


def pair_cases(tier):
    for i in range(len(MENU)):
        for j in range(i, len(MENU)):
            yield [i, j]


def run_pair(case, rec):
    i, j = case
    got = scalar(Ellipsoid, mk(i), mk(j))
    rec.outcome(got)
    expect(got == (i == j), 'ellipsoids {} and {}: equality verdict {}', MENU[i], MENU[j], got)
    got = scalar(Ellipsoid, mk(i), mk(j), True)
    expect(got == (i == j), 'ellipsoids {} and {} with properties: equality verdict {}', MENU[i], MENU[j], got)


# -- arrays ----------------------------------------------------------------------------------
SHAPES = {1: [(1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1)], 4: [(2, 2), (4,), (2, 1, 2)]}


def arr_cases(tier):
    for k in (1, 2, 3, 4):
        pats = list(itertools.product(range(3), repeat=k))
        if k == 4 and tier == 'quick':
            pats = pats[::5]
        for p1 in pats:
            for p2 in pats if k < 4 else pats[::4]:
                yield ['aa', k, list(p1), list(p2)]
        for one in range(3):
            for p in pats:
                for kind in ARRAY_KINDS:
                    yield ['sa', k, one, list(p), kind]
    for k1 in (1, 2, 3, 4):
        for k2 in (1, 2, 3, 4):
            for s1 in SHAPES[k1]:
                for s2 in SHAPES[k2]:
                    yield ['shape', list(s1), list(s2)]
    for s in ([0], [0, 2], [1, 0]):
        yield ['empty', s]


def run_arr(case, rec):
    base = [([1, 0], [[2, 1], [1, 2]]), ([1, 0], [[2, 1], [1, 3]]), ([1, 1], [[2, 1], [1, 2]])]

    def make(p, shp):
        return obj_array([ell(base[i][1], base[i][0]) for i in p], shp)
    if case[0] == 'aa':
        _, k, p1, p2 = case
        for shp in SHAPES[k]:
            got = verdict(Ellipsoid, make(p1, shp), make(p2, shp))
            want = np.array([x == y for x, y in zip(p1, p2)]).reshape(shp)
            expect(got.shape == shp and got.tolist() == want.tolist(), 'patterns {} and {} of shape {}: {}', p1, p2, shp, got.tolist())
        got = verdict(Ellipsoid, list(make(p1, (k,))), tuple(make(p2, (k,))))
        expect(got.ravel().tolist() == [x == y for x, y in zip(p1, p2)], 'lists {} and {}: {}', p1, p2, got.tolist())
    elif case[0] == 'sa':
        _, k, one, p, kind = case
        for shp in SHAPES[k]:
            s = wrap(ell(base[one][1], base[one][0]), kind)
            big = make(p, shp)
            want = np.array([x == one for x in p])
            for got in (verdict(Ellipsoid, s, big), verdict(Ellipsoid, big, s)):
                expect(got.ravel().tolist() == want.tolist(), 'one object {} with {} of shape {}: {}', one, p, shp, got.tolist())
                if k > 1:
                    expect(got.shape == shp, 'result shape {} instead of {}', got.shape, shp)
    elif case[0] == 'shape':
        s1, s2 = tuple(case[1]), tuple(case[2])
        n1, n2 = int(np.prod(s1)), int(np.prod(s2))
        a, b = make([0] * n1, s1), make([0] * n2, s2)
        if n1 > 1 and n2 > 1 and s1 != s2:
            expect_error(lambda: Ellipsoid.is_equal(a, b), 'wrongSizes', 'shapes {} and {}'.format(s1, s2))
            rec.outcome('wrongSizes')
        else:
            expect(bool(np.all(verdict(Ellipsoid, a, b))), 'equal arrays of shapes {} and {}', s1, s2)
    else:
        z = np.empty(case[1], dtype=object)
        expect(bool(np.all(verdict(Ellipsoid, z, np.empty((0,), dtype=object)))), 'two empty arrays are equal')
        expect_error(lambda: Ellipsoid.is_equal(z, [mk(1)]), 'wrongInput', 'empty array with an object')
        expect_error(lambda: Ellipsoid.is_equal([mk(1), mk(2)], z), 'wrongInput', 'objects with an empty array')


# -- properties ------------------------------------------------------------------------------
PROPS = {'abs_tol': [1e-5, 1e-3], 'rel_tol': [1e-4, 1e-1], 'n_plot_2d_points': [100, 150], 'n_plot_3d_points': [100, 300]}


def prop_cases(tier):
    for m1 in range(16):
        for m2 in range(16):
            for same_geom in (True, False):
                yield [m1, m2, same_geom]


def run_prop(case, rec):
    m1, m2, geom = case
    names = list(PROPS)
    kw1 = {n: PROPS[n][m1 >> i & 1] for i, n in enumerate(names)}
    kw2 = {n: PROPS[n][m2 >> i & 1] for i, n in enumerate(names)}
    a = ell([[2, 1], [1, 2]], [1, 0], **kw1)
    b = ell([[2, 1], [1, 2 if geom else 9]], [1, 0], **kw2)
    rec.outcome(m1 == m2)
    expect(scalar(Ellipsoid, a, b) == geom, 'properties {} / {} changed the plain verdict', kw1, kw2)
    expect(scalar(Ellipsoid, a, b, True) == (geom and m1 == m2), 'properties {} / {}: wrong verdict with properties', kw1, kw2)
    a = hyp([3, 4], 5, **kw1)
    b = hyp([3, 4], 5 if geom else 10, **kw2)
    expect(scalar(Hyperplane, a, b) == geom, 'hyperplanes: properties changed the plain verdict')
    expect(scalar(Hyperplane, a, b, True) == (geom and (m1 & 3) == (m2 & 3)), 'hyperplanes with properties: wrong verdict')


# -- hyperplanes -----------------------------------------------------------------------------
def hyp_menu(tier):
    m = []
    for v in ora.dirs(2, (0, 1, -1, 2)):
        for s in (0, 1, -1, 2):
            m.append([v, s])
    for v in ora.dirs(3, (0, 1, -1)):
        for s in (0, -2) if tier == 'quick' else (0, 1, -2):
            m.append([v, s])
    for v in ([1], [-1], [3]):
        for s in (0, 2, -6):
            m.append([v, s])
    return m


def hyp_cases(tier):
    m = hyp_menu(tier)
    for i in range(len(m)):
        for j in range(i, len(m)):
            if len(m[i][0]) == len(m[j][0]) or (i + j) % 7 == 0:
                yield [m[i], m[j]]


def run_hyp(case, rec):
    (v1, s1), (v2, s2) = case
    want = len(v1) == len(v2) and ora.rank([v1 + [s1], v2 + [s2]]) == 1
    got = scalar(Hyperplane, hyp(v1, s1), hyp(v2, s2))
    rec.outcome(want)
    expect(got == want, 'hyperplanes {} and {}: equality verdict {}', case[0], case[1], got)


def hyptol_cases(tier):
    for v in ([3, 4], [1, 0], [0, -2], [1, 2, 2]):
        for s in (5, -3, 0):
            for i in range(len(v) + 1):
                for f in (0.2, 20):
                    for at in TOLS:
                        yield [v, s, i, f, list(at)]


def run_hyptol(case, rec):
    """Close hyperplanes with different magnitudes: the tolerance applies to the canonical parameters."""
    v, s, i, f, at = case
    a = hyp(v, s, abs_tol=at[0], rel_tol=1e-12)
    n = ora.norm(v)
    u, w = [x / n for x in v], s / n
    if i == len(v):
        w += f * 1e-4
        if s == 0 and f < 1:
            return          # sign flip of a canonical form near zero shift is not what is measured here
        k = -3.
    else:
        j = (i + 1) % len(v)
        if u[i] == 0:
            return
        u = list(u)
        u[j] += f * 1e-4
        k = 2.
        if s == 0:
            return
    b = hyp(ora.scal(k, u), k * w, abs_tol=at[1], rel_tol=1e-12)

    def canon(vv, ss):
        nn = ora.norm(vv)
        vv, ss = [x / nn for x in vv], ss / nn
        if ss < 0:
            vv, ss = [-x for x in vv], -ss
        return vv + [ss]
    vals = [elem_ok(x, y, min(at), 1e-12) for x, y in zip(canon(v, s), canon(ora.scal(k, u), k * w))]
    if False not in vals and None in vals:
        return
    want = False not in vals
    if s == 0 and i == len(v):
        want = False
    rec.outcome(want)
    got = scalar(Hyperplane, a, b)
    expect(got == want, 'close hyperplanes {}: equality verdict {}', case, got)


CHECK = Check('C06', 'exploration',
              'all pairs of a menu of distinct ellipsoids and hyperplanes, every single-element perturbation below/above the '
              'smaller absolute and relative tolerance, every array pattern over three objects in every shape, every pair of '
              'property sets; non-trivial: the two sides are not the same object',
              generic('C06') +
              [Stage('pairs', pair_cases, run_pair, nontrivial=lambda c: c[0] != c[1], setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('small', small_cases, run_small, nontrivial=lambda c: c[0] != c[1], setup=reset),
               Stage('own tolerances', own_cases, run_own, setup=reset),
               Stage('arrays', arr_cases, run_arr, setup=reset),
               Stage('properties', prop_cases, run_prop, setup=reset),
               Stage('hyperplanes', hyp_cases, run_hyp, nontrivial=lambda c: c[0] != c[1], setup=reset),
               Stage('hyperplane_tolerance', hyptol_cases, run_hyptol, setup=reset)])
