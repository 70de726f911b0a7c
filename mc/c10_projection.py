"""C10: projections onto subspaces."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import (ARRAY_KINDS, FORM_KINDS, Ellipsoid, Properties, arr, close, ell, expect, expect_error, form, hyp, obj_array, reset, shp_of, snap_ell,
                 tl, wrap)

MENU = {1: [([[4]], [3]), ([[0]], [-1])],
        2: [([[2, 1], [1, 3]], [1, -2]), ([[1, -2], [-2, 4]], [0, 5]), ([[9, 0], [0, 4]], [-1, 1])],
        3: [([[2, 1, 0], [1, 3, -1], [0, -1, 4]], [1, -2, 3]), (ora.diag([1, 4, 9]), [0, 0, 2]), ([[1, 1, 0], [1, 1, 0], [0, 0, 2]], [-1, 0, 1])],
        4: [([[2, 1, 0, 1], [1, 3, -1, 0], [0, -1, 4, 1], [1, 0, 1, 5]], [1, -2, 3, -4]), (ora.diag([1, 4, 9, 16]), [0, 1, 0, 2])]}
KW = {'abs_tol': 1e-5, 'rel_tol': 1e-3, 'n_plot_2d_points': 17, 'n_plot_3d_points': 19}


def reference(q, c, basis):
    """basis: list of mutually orthogonal vectors."""
    n2 = [ora.dot(b, b) for b in basis]
    rc = [float(ora.dot(c, b)) / math.sqrt(x) for b, x in zip(basis, n2)]
    rq = [[float(ora.dot(a, ora.mv(q, b))) / math.sqrt(x * y) for b, y in zip(basis, n2)] for a, x in zip(basis, n2)]
    return rc, rq


def is_orth(basis):
    return all(ora.dot(a, b) == 0 for a, b in itertools.combinations(basis, 2))


def frac(basis):
    return [[Fr(x) for x in b] for b in basis]


def basis_cases(tier):
    big = tier != 'quick'
    for n in (1, 2, 3):
        vs = ora.dirs(n, (0, 1, -1) if n > 1 else (1, -1, 3))
        for k in range(1, min(n, 2) + 1):
            for b in itertools.product(vs, repeat=k):
                yield [n, [list(x) for x in b]]
    for n in (2, 3):
        vs = ora.dirs(n, (0, 3, -4) if n == 2 else (0, 2, -1))
        for k in (1, 2):
            for b in itertools.product(vs, repeat=k):
                yield [n, [list(x) for x in b]]
    v3 = ora.dirs(3)
    for a, b in itertools.combinations(v3, 2):
        if ora.dot(a, b) == 0:
            for c in v3:
                if ora.dot(a, c) == 0 or big:
                    yield [3, [a, b, c]]
    v4 = [[1, 0, 0, 0], [1, 1, 0, 0], [1, -1, 0, 0], [0, 0, 2, 0], [0, 0, 1, -1], [1, 1, 1, 1], [1, 1, -1, -1], [-1, 1, 1, -1], [0, 0, 0, 7]]
    for k in range(1, 5):
        for b in itertools.combinations(v4, k):
            if k < 3 or big or is_orth(b[:2]):
                yield [4, [list(x) for x in b]]
                if big:
                    yield [4, [list(x) for x in b[::-1]]]
    for s in (Fr(1, 4096), Fr(1024)):
        yield [3, [[str(s * x) for x in [1, 2, 2]], [str(s * x) for x in [2, 1, -2]]]]
        yield [2, [[str(s * x) for x in [3, -4]]]]


def check_one(e, q, c, basis, kw, what):
    rc, rq = reference(q, c, basis)
    gc, gq = e.parameters()
    close(np.ravel(gc), rc, 1e-12, what + ': center')
    close(gq, rq, 1e-12, what + ': shape matrix')
    s = snap_ell(e)
    expect(s[4:] == (float(kw['abs_tol']), float(kw['rel_tol']), float(kw['n_plot_2d_points']), float(kw['n_plot_3d_points'])),
           '{}: captured properties became {}', what, s[4:])


def run_basis(case, rec):
    n, basis = case
    basis = frac(basis)
    bm = arr(ora.T(basis))
    ok = is_orth(basis)
    menu = MENU[n]
    what = 'basis {}'.format(ora.fl(basis))
    es = [ell(q, c, **KW) for q, c in menu]
    ar = obj_array(es, (len(es),))
    snaps = [snap_ell(e) for e in es]
    b = bm.copy()
    Properties.set_abs_tol(1e-3)
    if not ok:
        for fn in (Ellipsoid.projection, Ellipsoid.get_projection):
            expect_error(lambda: fn(ar, b), 'wrongInput', what)
            expect([snap_ell(e) for e in es] == snaps, '{}: a rejected call changed an ellipsoid', what)
        rec.outcome('rejected')
        return
    r = Ellipsoid.get_projection(ar, b)
    expect(np.shape(r) == (len(es),), '{}: result of shape {}', what, np.shape(r))
    expect([snap_ell(e) for e in es] == snaps, '{}: get_projection changed its argument', what)
    expect(np.array_equal(b, bm), '{}: the basis was changed', what)
    expect(not any(x is y for x in r for y in es), '{}: get_projection returned its argument', what)
    for x, (q, c) in zip(r, menu):
        check_one(x, q, c, basis, KW, what)
    r = Ellipsoid.projection(ar, b)
    expect(np.array_equal(b, bm), '{}: the basis was changed', what)
    expect(np.shape(r) == (len(es),) and all(x is y for x, y in zip(r, es)), '{}: in-place projection returned other objects', what)
    for x, (q, c) in zip(es, menu):
        check_one(x, q, c, basis, KW, what + ' in place')
    if len(basis) >= 2 and len(basis) < 4:
        # project again, onto the first coordinate of the new space
        k = len(basis)
        b2 = [[0] * k, [0] * k]
        b2[0][k - 1] = 2
        b2[1][0] = -1
        r2 = Ellipsoid.get_projection(r, arr(ora.T(b2)))
        bb = [ora.scal(1, basis[k - 1]), ora.scal(-1, basis[0])]
        for x, (q, c) in zip(r2, menu):
            check_one(x, q, c, bb, KW, what + ' twice')
    rec.outcome((n, len(basis)))


def unit_cases(tier):
    for n in (2, 3):
        for ds in itertools.product((0, 0.3, 3e-2, 3e-3, 3e-5, 3e-7, -3e-2, -3e-4), repeat=2 if n == 3 else 1):
            for tol in (1e-7, 1e-2, 0.4):
                yield [n, list(ds), tol]


def run_unit(case, rec):
    """Basis vectors whose length is close to one, or very small or large."""
    n, ds, tol = case
    base = [[0.6, 0.8]] if n == 2 else [[1 / 3., 2 / 3., 2 / 3.], [2 / 3., 1 / 3., -2 / 3.]]
    q, c = MENU[n][0]
    b = np.array(base).T
    want_c, want_q = b.T @ arr(c), b.T @ arr(q) @ b
    for fn in (Ellipsoid.get_projection, Ellipsoid.projection):
        for f in (1., -1., 1e-4, 1e5):
            if f == 1e5 and n == 3:
                continue
            m = b * (1 + np.array(ds)) * f
            r = fn([ell(q, c, abs_tol=tol)], m).ravel()[0]
            s = np.sign(f)
            close(np.ravel(r.get_center_vec()), want_c * s, 1e-12, 'basis {}: center'.format(m.tolist()))
            close(r.get_shape_mat(), want_q, 1e-12, 'basis {}: shape matrix'.format(m.tolist()))
    rec.outcome((n, tol))


def form_cases(tier):
    for n in (2, 3):
        for kind in ARRAY_KINDS:
            for fk in FORM_KINDS:
                if fk != 'complex0':
                    for k in range(1, n + 1):
                        yield [n, kind, fk, k]
        for shp in ([2], [2, 1], [1, 3], [2, 2], [1, 2, 1], [0], [2, 0]):
            for k in range(1, n + 1):
                yield [n, shp, 'plain', k]


def run_form(case, rec):
    n, kind, fk, k = case
    basis = [[3, 4], [4, -3]][:k] if n == 2 else [[1, 2, 2], [2, 1, -2], [-2, 2, -1]][:k]
    bm = form(ora.T(basis), fk)
    menu = MENU[n]
    if isinstance(kind, str):
        q, c = menu[0]
        for fn in (Ellipsoid.get_projection, Ellipsoid.projection):
            e = ell(q, c, **KW)
            r = fn(wrap(e, kind), bm)
            expect(np.shape(r) == shp_of(kind), '{}: result of shape {}', kind, np.shape(r))
            check_one(np.array(r).ravel()[0], q, c, basis, KW, kind)
            expect((np.array(r).ravel()[0] is e) == (fn == Ellipsoid.projection), '{}: identity of the result', kind)
    else:
        m = int(np.prod(kind))
        for fn in (Ellipsoid.get_projection, Ellipsoid.projection):
            items = [menu[i % len(menu)] for i in range(m)]
            es = [ell(q, c, **KW) for q, c in items]
            a = obj_array(es, tuple(kind))
            r = fn(a, bm)
            expect(np.shape(r) == tuple(kind), 'array of shape {}: result of shape {}', kind, np.shape(r))
            for x, (q, c) in zip(np.ravel(r), items):
                check_one(x, q, c, basis, KW, 'array of shape {}'.format(kind))
            expect(all((x is y) == (fn == Ellipsoid.projection) for x, y in zip(np.ravel(r), es)), 'array of shape {}: identity of the result', kind)
    rec.outcome((str(kind), k))


def shared_cases(tier):
    for pat in itertools.product((0, 1, 2), repeat=3):
        yield list(pat)


def run_shared(pat, rec):
    """Exactly the objects given are changed."""
    es = [ell(q, c, **KW) for q, c in MENU[3]]
    before = [snap_ell(e) for e in es]
    Ellipsoid.projection(obj_array([es[i] for i in pat], (len(pat),)), arr([[0, 1], [1, 0], [0, 1]]))
    for i, e in enumerate(es):
        if i in pat:
            q, c = MENU[3][i]
            check_one(e, q, c, [[0, 1, 0], [1, 0, 1]], KW, 'projected object')
        else:
            expect(snap_ell(e) == before[i], 'an object not given was changed')
    rec.outcome(len(pat))


def bad_cases(tier):
    for i in range(9):
        yield i


def run_bad(i, rec):
    e3, e2 = ell(*MENU[3][0]), ell(*MENU[2][0])
    basis = {0: ora.eye(2), 1: ora.eye(4), 2: [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]}
    a = obj_array([e3, ell(*MENU[3][1])], (2,))
    b = arr([[1, 0], [0, 1], [0, 0]])
    if i <= 2:
        b = arr(basis[i])
    elif i == 3:
        b = np.array([['a', 'b'], ['c', 'd'], ['e', 'f']])
    elif i == 4:
        a = obj_array([e3, e2], (2,))
    elif i == 5:
        a = obj_array([e2, e3], (2,))
    elif i == 6:
        a = obj_array([e3, Ellipsoid()], (2,))
    elif i == 7:
        a = obj_array([e3, e3], (2,))
        b = arr([[1, 1e-3], [0, 1], [0, 0]])
    else:
        a = [e3, hyp([1, 2, 3], 1)]
    objs = [x for x in np.ravel(np.array(a)) if isinstance(x, Ellipsoid)]
    before = [snap_ell(x) for x in objs]
    for fn in (Ellipsoid.projection, Ellipsoid.get_projection):
        expect_error(lambda: fn(a, b), 'wrongInput', 'invalid case {}'.format(i))
        expect([snap_ell(x) for x in objs] == before, 'a rejected call changed an ellipsoid')
    rec.outcome(i)


def tol_cases(tier):
    for tol in (1e-7, 1e-4):
        for f in (0.3, 3.0):
            for sgn in (1, -1):
                for tols in ([tol, tol / 100], [tol / 100, tol], [tol]):
                    yield [tol, f, sgn, tols]


def run_tol(case, rec):
    """Orthogonality within the absolute tolerance of the objects (the largest one)."""
    tol, f, sgn, tols = case
    b = arr([[1, sgn * f * tol], [0, 1], [0, 0]])
    es = [ell(*MENU[3][0], abs_tol=t) for t in tols]
    Properties.set_abs_tol(1e-2)
    if f < 1:
        r = Ellipsoid.get_projection(es, b)
        for x in r:
            close(x.parameters()[1], [[2, 1], [1, 3]], 10 * tol, 'nearly orthogonal basis')
    else:
        before = [snap_ell(x) for x in es]
        expect_error(lambda: Ellipsoid.projection(es, b), 'wrongInput', 'basis not orthogonal')
        expect([snap_ell(x) for x in es] == before, 'a rejected call changed an ellipsoid')
    rec.outcome(f)


SCALED = {2: [([[2, 1], [1, 3]], [1, -2]), ([[1, 0], [0, 1024]], [1, 512]), ([[1, 1], [1, 1]], [0, 1])],
          3: [([[2, 1, 0], [1, 3, -1], [0, -1, 4]], [1, -2, 3]), (ora.diag([1, 4096, 1048576]), [1, 64, 1024]), (ora.diag([0, 1, 2]), [1, 0, 1])]}
SBASES = {2: [[[1, 0]], [[0, -2]], [[3, 4]], [[3, 4], [4, -3]], [[0, 1], [1, 0]]],
          3: [[[1, 0, 0]], [[0, 1, 0], [0, 0, 1]], [[1, 2, 2], [2, 1, -2]], [[0, 3, 4], [5, 0, 0]], [[1, 2, 2], [2, 1, -2], [-2, 2, -1]], [[0, 0, 2], [1, 1, 0]]]}


def scale_cases(tier):
    for n in SCALED:
        for mi in range(len(SCALED[n])):
            for bi in range(len(SBASES[n])):
                # rounding makes a large singular matrix negative by more than the tolerance
                for k in range(-20, 11 if mi == 2 else 21, 2 if tier == 'quick' else 1):
                    yield [n, mi, bi, k]


def run_scale(case, rec):
    """Ellipsoids of any size, also far smaller than the tolerances: the result is exact relative to their size."""
    n, mi, bi, k = case
    q, c = SCALED[n][mi]
    basis = frac(SBASES[n][bi])
    rc, rq = reference(q, c, basis)
    bm = arr(ora.T(basis))
    for kk, kc in ((k, k), (k, 0), (0, k)):
        sq, sc = 4. ** kk, 2. ** kc
        e = Ellipsoid(arr(c) * sc, arr(q) * sq)
        for fn in (Ellipsoid.get_projection, Ellipsoid.projection):
            gc, gq = fn([e], bm).ravel()[0].parameters()
            what = '{} scaled by 4^{} and {} by 2^{} onto {}'.format(q, kk, c, kc, SBASES[n][bi])
            close(np.ravel(gc) / sc, rc, 1e-13, what + ': center')
            close(np.asarray(gq) / sq, rq, 1e-13, what + ': shape matrix', ora_top(q))
    rec.outcome((n, k > 0))


def ora_top(q):
    return max(abs(float(x)) for r in q for x in r)


CHECK = Check('C10', 'exploration',
              'all families of one and two vectors over small alphabets, orthogonal triples and quadruples, x menus of ellipsoids; all containers and '
              'memory layouts; non-trivial: a basis of at least two vectors or of a proper subspace',
              generic('C10') +
              [Stage('bases', basis_cases, run_basis, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('scales', scale_cases, run_scale, nontrivial=lambda c: c[3] != 0, setup=reset),
               Stage('lengths', unit_cases, run_unit, setup=reset),
               Stage('containers', form_cases, run_form, setup=reset),
               Stage('shared', shared_cases, run_shared, setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
