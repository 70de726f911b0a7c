"""C21: tests of matrices, square roots, regularizations, orthogonalization, real parts."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import arr, close, close_flat, expect, expect_error, fail, forms, reset, truth
from ellipy.gras.la.la import is_mat_not_deg, is_mat_pos_def, is_mat_symm, mat_orth, math_orth_col, reg_mat, reg_pos_def_mat, sqrtm_pos, try_treat_as_real
from ellipy.gras.gen.gen import mat_dot, sqrt_pos


def tls(m):
    return ora.fl(m)


def same_arg(a, keep, what):
    expect(np.array_equal(a, keep, equal_nan=True) if a.dtype.kind == 'f' else np.array_equal(a, keep), '{}: the argument changed', what)


# -- tests on all small integer matrices ----------------------------------------------------
def small_cases(tier):
    big = tier != 'quick'
    for n, al in ((1, (-2, -1, 0, 1, 3)), (2, (-1, 0, 1, 2)), (3, (-1, 0, 1))):
        lead = n * n if n == 1 else 2 if n == 2 else 4
        for pre in itertools.product(range(len(al)), repeat=lead):
            yield [n, list(al), list(pre)]
    if big:
        for pre in itertools.product((-1, 0, 1, 2), repeat=4):
            yield [-4, [-1, 0, 1], list(pre)]


def min_eig(m):
    return ora.jacobi(m)[0][0]


def check_square(m, rec):
    n = len(m)
    a = arr(m)
    keep = a.copy()
    asym = max(abs(m[i][j] - m[j][i]) for i in range(n) for j in range(n))
    what = 'matrix {}'.format(tls(m))
    for t in (0., 0.5, 1., 1.5, 3.):
        expect(truth(is_mat_symm(a, t)) == (asym <= t), '{}: symmetric with tolerance {}: {}', what, t, is_mat_symm(a, t))
    expect(truth(is_mat_symm(a)) == (asym == 0), '{}: symmetric: {}', what, is_mat_symm(a))
    expect(truth(is_mat_not_deg(a)), '{}: degenerate without a tolerance', what)
    g, _ = ora.jacobi(ora.mm(ora.T(m), m))
    smin = math.sqrt(max(g[0], 0.))
    rk = ora.rank(m)
    if rk < n:
        expect(not truth(is_mat_not_deg(a, 1e-9)), '{}: not degenerate', what)
    else:
        for f in (0.5, 0.99):
            expect(truth(is_mat_not_deg(a, smin * f)), '{}: degenerate with tolerance {}, its smallest singular value is {}', what, smin * f, smin)
        for f in (1.01, 2):
            expect(not truth(is_mat_not_deg(a, smin * f)), '{}: not degenerate with tolerance {}, its smallest singular value is {}', what, smin * f, smin)
    if asym:
        for t in (0., asym / 2.):
            for f in (lambda: is_mat_pos_def(a, t), lambda: is_mat_pos_def(a, t, True), lambda: sqrtm_pos(a, t)):
                expect_error(f, 'nonSymmMat', what)
        expect_error(lambda: reg_pos_def_mat(a, 1e-3), 'inp_mat', what)
    else:
        e = ora.jacobi(m)[0]
        psd, pd = ora.is_psd(m), ora.is_pd(m)
        if psd == pd:
            expect(truth(is_mat_pos_def(a)) == pd, '{}: positive definite: {}', what, is_mat_pos_def(a))
            expect(truth(is_mat_pos_def(a, 0., True)) == psd, '{}: positive semidefinite: {}', what, is_mat_pos_def(a, 0., True))
        expect(truth(is_mat_pos_def(a, 1e-9)) == pd, '{}: positive definite with tolerance 1e-9: {}', what, is_mat_pos_def(a, 1e-9))
        expect(truth(is_mat_pos_def(a, 1e-9, True)) == psd, '{}: positive semidefinite with tolerance 1e-9: {}', what, is_mat_pos_def(a, 1e-9, True))
        if abs(e[0]) > 1e-3:
            for f in (0.5, 0.99, 1.01, 2):
                t = abs(e[0]) * f
                expect(truth(is_mat_pos_def(a, t)) == (e[0] > t), '{}: positive definite with tolerance {}: {}, smallest eigenvalue {}', what, t, is_mat_pos_def(a, t), e[0])
                expect(truth(is_mat_pos_def(a, t, True)) == (e[0] >= -t), '{}: positive semidefinite with tolerance {}: {}, smallest eigenvalue {}', what, t, is_mat_pos_def(a, t, True), e[0])
                if e[0] < -t:
                    expect_error(lambda: sqrtm_pos(a, t), 'notPosSemDef', what)
        if psd:
            check_root(m, a, 1e-9, what)
        else:
            expect_error(lambda: sqrtm_pos(a, 1e-9), 'notPosSemDef', what)
        check_reg_pd(m, a, what)
    check_reg(m, a, what)
    check_orth(m, a, what)
    same_arg(a, keep, what)
    rec.outcome((n, asym, rk, asym == 0 and ora.is_psd(m)))


def clip(m, f):
    """Spectral function of a symmetric matrix."""
    w, v = ora.jacobi(m)
    w = [f(x) for x in w]
    n = len(m)
    return [[sum(v[i][k] * w[k] * v[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def check_root(m, a, tol, what):
    r = sqrtm_pos(a, tol)
    n = len(m)
    s = max(1., math.sqrt(max(abs(float(x)) for row in m for x in row)))
    close(r, clip(m, lambda x: math.sqrt(max(x, 0.))), 1e-6 if ora.rank(m) < n else 1e-9, '{}: square root'.format(what), s)
    close(r @ r, clip(m, lambda x: max(x, 0.)), 1e-9, '{}: square of the square root'.format(what), s * s)
    expect(np.max(np.abs(r - r.T)) <= 1e-12 * s and np.min(np.linalg.eigvalsh(0.5 * (r + r.T))) >= -1e-9 * s, '{}: the square root {} is not symmetric positive semidefinite', what, r)


def check_reg_pd(m, a, what):
    s = max(1., max(abs(float(x)) for row in m for x in row))
    for t in (1e-3, 0.5, 2., 10.):
        r = reg_pos_def_mat(a, t)
        expect(np.isrealobj(r) and np.array_equal(r, r.T), '{} regularized with {}: {}', what, t, r)
        close(r, clip(m, lambda x: max(x, t)), 1e-9, '{} regularized with {}'.format(what, t), s * 10)


def check_reg(m, a, what):
    """Singular values raised to the tolerance, vectors kept.  Defined uniquely only on the part with singular values above zero."""
    n = len(m)
    s = max(1., max(abs(float(x)) for row in m for x in row))
    g, v = ora.jacobi(ora.mm(ora.T(m), m))
    sv = [math.sqrt(max(x, 0.)) for x in g]
    rk = ora.rank(m)
    for t in (1e-3, 0.5, 2., 10.):
        r = np.asarray(reg_mat(a, t))
        expect(r.shape == (n, n), '{}: regularized matrix of shape {}', what, r.shape)
        got = sorted(np.linalg.svd(r, compute_uv=False).tolist())
        want = sorted(max(x, t) if i >= n - rk else t for i, x in enumerate(sv))
        close_flat(got, want, 1e-8, '{} regularized with {}: singular values'.format(what, t), 10 * s)
        # right singular vectors with a positive singular value: r v = max(s, t) / s * (m v)
        for i in range(n - rk, n):
            vi = [v[k][i] for k in range(n)]
            close_flat(r @ np.array(vi), ora.scal(max(sv[i], t) / sv[i], ora.mv(tls(m), vi)), 1e-7, '{} regularized with {}: image of a singular vector'.format(what, t), 10 * s * max(1., t / sv[i]))
        # the kernel goes to the orthogonal complement of the image
        for i in range(n - rk):
            vi = np.array([v[k][i] for k in range(n)])
            im = r @ vi
            close_flat(np.linalg.norm(im), [t], 1e-7, '{} regularized with {}: length of the image of a kernel vector'.format(what, t), 10 * s)
            close_flat(arr(m).T @ im, [0.] * n, 1e-7, '{} regularized with {}: the image of a kernel vector is not orthogonal to the image of the matrix'.format(what, t), 10 * s * s)


def check_orth(m, a, what):
    """m: rows x cols."""
    n, k = len(m), len(m[0])
    keep = a.copy()
    q = np.asarray(mat_orth(a))
    same_arg(a, keep, what)
    s = max(1., max(abs(float(x)) for row in m for x in row))
    expect(q.shape == (n, n) and np.isrealobj(q), '{}: orthogonalization of shape {}', what, q.shape)
    close(q.T @ q, ora.eye(n), 1e-9, '{}: orthogonalization {} is not orthogonal'.format(what, q.tolist()))
    r = q.T @ arr(m)
    for i in range(n):
        for j in range(min(i, k)):
            expect(abs(r[i, j]) <= 1e-9 * s, '{}: the leading columns of {} do not span those of the matrix', what, q.tolist())
    for i in range(min(n, k)):
        expect(r[i, i] >= -1e-9 * s, '{}: column {} of {} has a negative coefficient', what, i, q.tolist())
    if k <= n:
        close(math_orth_col(a), q[:, :k], 1e-12, '{}: orthogonal columns'.format(what))


def run_small(case, rec):
    n, al, pre = case
    if n < 0:
        n = -n
        # symmetric 4 x 4: diagonal given
        for off in itertools.product(al, repeat=6):
            m = ora.diag(pre)
            for (i, j), x in zip(itertools.combinations(range(4), 2), off):
                m[i][j] = m[j][i] = x
            check_square(m, rec)
        return
    for rest in itertools.product(range(len(al)), repeat=n * n - len(pre)):
        v = [al[i] for i in pre + list(rest)]
        check_square([v[i * n:(i + 1) * n] for i in range(n)], rec)


# -- rectangular orthogonalization ---------------------------------------------------------
def rect_cases(tier):
    for n, k in ((1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 1), (4, 2), (2, 4), (5, 2), (5, 1)):
        yield [n, k]


def run_rect(case, rec):
    n, k = case
    al = (0, 1, -2) if n * k <= 6 else (0, 1) if n * k > 8 else (0, 1, -1)
    for v in itertools.product(al, repeat=n * k):
        m = [list(v[i * k:(i + 1) * k]) for i in range(n)]
        check_orth(m, arr(m), 'matrix {}'.format(m))
        if sum(v) == 2:
            for kind, f in forms(m):
                if kind in ('int', 'fortran', 'strided', 'readonly'):
                    check_orth(m, f, '{} matrix {}'.format(kind, m))
    rec.outcome((n, k))


# -- prescribed spectra ------------------------------------------------------------------------
EIGS = {1: [(0,), (4,), (-1,)],
        2: [(0, 0), (1, 1), (0, 4), (Fr(1, 4), 9), (-1, 1), (Fr(1, 2 ** 20), 1)],
        3: [(0, 0, 0), (0, 0, 1), (2, 2, 2), (1, 1, 4), (1, 4, 4), (0, 1, 1), (-1, 0, 2), (-1, -1, 1), (1, 4, 9)],
        4: [(0, 0, 1, 1), (1, 1, 1, 2), (3, 3, 5, 5), (0, 1, 4, 9), (-2, 0, 1, 1), (1, 2, 1, 2)],
        5: [(0, 0, 0, 0, 1), (1, 1, 2, 2, 3), (1, 2, 1, 2, 1), (0, 1, 4, 9, 16), (-1, 0, 0, 1, 1), (4, 4, 4, 4, 4)],
        6: [(1, 2, 1, 2, 1, 2), (0, 0, 1, 1, 2, 2), (-3, -3, 1, 2, 3, 4)]}


def spec_cases(tier):
    for n in range(1, 7):
        for i, e in enumerate(EIGS[n]):
            for k in range(1 if n == 1 else 5):
                for sc in (-10, 0, 6):
                    yield [n, i, k, sc]


def run_spec(case, rec):
    n, i, k, e = case
    sc = Fr(2) ** e
    eigs = [x * sc for x in EIGS[n][i]]
    m, q = ora.spread(n, eigs, k)
    a = arr(m)
    keep = a.copy()
    lo = float(min(eigs))
    top = max(float(max(abs(x) for x in eigs)), 1e-3)
    what = 'matrix with eigenvalues {} ({})'.format(ora.fl(eigs), k)

    def spec(f):
        return ora.mm(ora.mm(ora.fl(q), ora.diag([f(float(x)) for x in eigs])), ora.T(ora.fl(q)))
    for t in (1e-9, 0.01, 0.3, 0.9, 1.1, 3.):
        t = t * float(sc)
        if abs(abs(lo) - t) > 1e-6 * t:
            expect(truth(is_mat_pos_def(a, t)) == (lo > t), '{}: positive definite with tolerance {}', what, t)
            expect(truth(is_mat_pos_def(a, t, True)) == (lo >= -t), '{}: positive semidefinite with tolerance {}', what, t)
            if lo >= -t:
                r = sqrtm_pos(a, t)
                close(r, spec(lambda x: math.sqrt(max(x, 0.))), 2e-7, '{}: square root'.format(what), math.sqrt(top))
                close(r @ r, spec(lambda x: max(x, 0.)), 1e-12, '{}: square of the square root'.format(what), top)
            else:
                expect_error(lambda: sqrtm_pos(a, t), 'notPosSemDef', what)
        r = reg_pos_def_mat(a, t)
        expect(np.isrealobj(r) and np.array_equal(r, r.T), '{}: regularized {}', what, r)
        close(r, spec(lambda x: max(x, t)), 1e-12, '{}: regularized with {}'.format(what, t), max(top, t))
        r = reg_mat(a, t)
        close_flat(sorted(np.linalg.svd(r, compute_uv=False).tolist()), sorted(max(abs(float(x)), t) for x in eigs), 1e-12, '{}: singular values after regularization with {}'.format(what, t), max(top, t))
        if all(eigs):
            close(r, spec(lambda x: math.copysign(max(abs(x), t), x)), 1e-10, '{}: regularized with {}'.format(what, t), max(top, t))
        smin = min(abs(float(x)) for x in eigs)
        if abs(smin - t) > 1e-6 * t:
            expect(truth(is_mat_not_deg(a, t)) == (smin > t), '{}: not degenerate with tolerance {}', what, t)
    # symmetric up to a tolerance
    for d in (0.5, 2.):
        if n > 1:
            t = 1e-6 * top
            b = a.copy()
            b[0, n - 1] += d * t
            expect(truth(is_mat_symm(b, t)) == (d < 1), '{}: symmetric with asymmetry {} and tolerance {}', what, d * t, t)
            if d > 1:
                expect_error(lambda: sqrtm_pos(b, t), 'nonSymmMat', what)
                expect_error(lambda: is_mat_pos_def(b, t), 'nonSymmMat', what)
            elif lo >= 0:
                expect(truth(is_mat_pos_def(b, 2 * t, True)), '{}: not semidefinite after a small perturbation', what)
    same_arg(a, keep, what)
    rec.outcome((n, lo > 0, lo < 0))


# -- scalars and arrays ---------------------------------------------------------------------
def root_cases(tier):
    for t in (0., 1e-6, 0.5, 3.):
        yield t


def run_root(t, rec):
    al = [0., 1., 2.25, 4, 1e-300, 1e12, -0.9 * t, -t]
    for x in al:
        for y in (x, np.float64(x)):
            r = sqrt_pos(y, t)
            expect(np.size(r) == 1, 'square root of {}: {}', x, r)
            close_flat(r, [math.sqrt(max(x, 0.))], 1e-15, 'square root of {}'.format(x))
    for bad in (-1.1 * t - 1e-3, -5 * t - 1e-9, -7):
        for y in (bad, np.array([bad]), np.array([1., bad]), np.array([[bad, 1.], [2., 3.]]), np.array([[1., 1.], [2., bad]])):
            expect_error(lambda: sqrt_pos(y, t), 'negativeInput', 'square root of {} with tolerance {}'.format(y, t))
    for n in (1, 2, 3):
        for v in itertools.product(al, repeat=n):
            for a in (np.array(v), np.array(v).reshape(n, 1), np.array(v).reshape(1, n)) + ((np.array(v).astype(int),) if all(float(x).is_integer() for x in v) else ()):
                keep = a.copy()
                r = sqrt_pos(a, t)
                expect(np.array_equal(a, keep) and np.shape(r) == a.shape, 'square roots of {}: {}', v, r)
                close_flat(r, [math.sqrt(max(x, 0.)) for x in v], 1e-15, 'square roots of {}'.format(v))
    expect_error(lambda: sqrt_pos(1., -1.), 'abs_tolNegative', 'negative tolerance')
    expect(np.size(sqrt_pos(np.zeros((0,)), t)) == 0, 'square roots of an empty array')
    rec.outcome(t)


def real_cases(tier):
    for n in range(5):
        yield n


def run_real(n, rec):
    eps = 2. ** -52
    for tol in (None, 1e-10, 1e-3, 2.):
        t = eps if tol is None else tol
        args = () if tol is None else (tol,)
        if n == 0:
            for re in (0., 1.5, -2.):
                for x in (re, np.float64(re), complex(re, 0), np.complex128(re)) + ((int(re), bool(re)) if re == 0. else ()):
                    r = try_treat_as_real(x, *args)
                    expect(np.isrealobj(r) and np.size(r) == 1 and float(r) == re, 'real part of {!r}: {!r}', x, r)
                for f in (0.5, -0.5, 0.99):
                    for x in (complex(re, f * t), np.complex128(complex(re, f * t))):
                        r = try_treat_as_real(x, *args)
                        expect(np.isrealobj(r) and np.size(r) == 1 and float(r) == re, 'real part of {!r}: {!r}', x, r)
                for f in (1.01, -2., 1e3):
                    expect_error(lambda: try_treat_as_real(complex(re, f * t), *args), 'inp_mat', 'imaginary part {} with tolerance {}'.format(f * t, t))
        elif n == 4:
            for re in itertools.product((0., 1., -2.), repeat=4):
                a = np.array(re).reshape(2, 2)
                r = try_treat_as_real(a, *args)
                expect(np.isrealobj(r) and np.array_equal(r, a), 'real part of {}: {}', a, r)
                for p in range(4):
                    for f, ok in ((0., True), (0.5, True), (-0.5, True), (1.5, False), (-1.5, False)):
                        z = a.astype(complex)
                        z[p // 2, p % 2] += 1j * f * t
                        if ok:
                            r = try_treat_as_real(z, *args)
                            expect(np.isrealobj(r) and np.array_equal(r, a), 'real part of {}: {}', z, r)
                        else:
                            expect_error(lambda: try_treat_as_real(z, *args), 'inp_mat', 'imaginary part {} with tolerance {}'.format(f * t, t))
        else:
            for re in itertools.product((0., 1., -2.), repeat=n):
                a = np.array(re)
                for im in itertools.product((0., 0.5, -0.9, 1.1, -3.), repeat=n):
                    z = a + 1j * t * np.array(im)
                    keep = z.copy()
                    if max(abs(x) for x in im) < 1:
                        r = try_treat_as_real(z, *args)
                        expect(np.isrealobj(r) and np.array_equal(r, a), 'real part of {}: {}', z, r)
                    else:
                        expect_error(lambda: try_treat_as_real(z, *args), 'inp_mat', 'real part of {} with tolerance {}'.format(z, t))
                    expect(np.array_equal(z, keep), 'the argument changed')
    for bad in (0., -1., 'a', None, np.array([1e-3, 1e-3])):
        expect_error(lambda: try_treat_as_real(np.array([1.]), bad), 'tol_val', 'tolerance {}'.format(bad))
    rec.outcome(n)


def dot_cases(tier):
    for n in (1, 2, 3, 4):
        for k in (0, 1, 2, 3):
            yield [n, k]


def run_dot(case, rec):
    n, k = case
    shp = (n, n) if k == 0 else (n, n, k)
    m = int(np.prod(shp))
    for i in range(m):
        for j in range(m):
            a = np.zeros(shp)
            b = np.zeros(shp)
            a.flat[i] = 3.
            b.flat[j] = -2.
            want = np.zeros((1, 1) if k == 0 else (1, 1, k))
            if i == j:
                want.flat[0 if k == 0 else i % k] = -6. / n
            close(mat_dot(a, b), want, 1e-14, 'scalar product of unit matrices {} {} of size {}'.format(i, j, shp))
    a = np.arange(1, m + 1).reshape(shp)
    b = (np.arange(m) * 7 % 5 - 2).reshape(shp)
    al, bl = a.ravel().tolist(), b.ravel().tolist()
    kk = max(k, 1)
    want = [sum(x * y for x, y in zip(al[t::kk], bl[t::kk])) / n for t in range(kk)]
    for x, y in ((a, b), (b, a), (a.astype(float), b.astype(float)), (a.tolist(), b.tolist())):
        r = mat_dot(x, y)
        expect(np.shape(r) == ((1, 1) if k == 0 else (1, 1, k)), 'scalar product of shape {}', np.shape(r))
        close_flat(r, want, 1e-13, 'scalar product of size {}'.format(shp))
    expect_error(lambda: mat_dot(np.ones(shp), np.ones((n + 1, n + 1) + shp[2:])), 'size', 'different sizes')
    expect_error(lambda: mat_dot(np.ones(shp), np.ones(shp[:2] + (k + 1,))), 'size', 'different sizes')
    expect_error(lambda: mat_dot(np.ones((n, n + 1)), np.ones((n, n + 1))), 'not_square', 'rectangular matrices')
    rec.outcome(case)


def bad_cases(tier):
    return list(range(5))


def run_bad(i, rec):
    a = np.array([[2., 1.], [1., 3.]])
    if i == 0:
        for t in (-1., -1e-300):
            for f in (lambda: is_mat_not_deg(a, t), lambda: is_mat_pos_def(a, t), lambda: is_mat_pos_def(a, t, True), lambda: sqrtm_pos(a, t)):
                expect_error(f, 'abs_tolNegative', 'tolerance {}'.format(t))
    elif i == 1:
        for b in (np.ones((2, 3)), np.ones((3, 2)), np.ones((2,)), np.ones((1, 2)), np.ones((2, 2, 2))):
            for f in (lambda: is_mat_symm(b), lambda: is_mat_pos_def(b), lambda: sqrtm_pos(b), lambda: is_mat_symm(b, 1.)):
                expect_error(f, 'nonSquareMat', 'shape {}'.format(b.shape))
    elif i == 2:
        for t in (0., -1., 'a', None, np.array([1., 2.])):
            expect_error(lambda: reg_pos_def_mat(a, t), 'reg_tol', 'tolerance {}'.format(t))
            expect_error(lambda: reg_mat(a, t), 'reg_tol', 'tolerance {}'.format(t))
    elif i == 3:
        expect_error(lambda: reg_pos_def_mat(a, 1 + 1j), '', 'complex tolerance')
        close(reg_pos_def_mat(a, 1e-3 + 0j), a, 1e-12, 'complex tolerance with zero imaginary part')
    else:
        for b in ([[1, 1e-3], [0, 1]], [[1, 1e-15], [0, 1]]):
            expect_error(lambda: reg_pos_def_mat(np.array(b), 1e-3), 'inp_mat', 'asymmetric matrix')
    rec.outcome(i)


CHECK = Check('C21', 'exploration',
              'all 1x1..3x3 integer matrices over small alphabets (symmetric 4x4 in the thorough tier), rectangular ones, matrices with prescribed rational spectra (repeated, '
              'zero, negative eigenvalues) in dimensions 1..6 at three scales x tolerances on both sides; non-trivial: dimension at least 2',
              generic('C21') +
              [Stage('small matrices', small_cases, run_small, nontrivial=lambda c: abs(c[0]) > 1, setup=reset),
               Stage('rectangular', rect_cases, run_rect, setup=reset),
               Stage('spectra', spec_cases, run_spec, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('square roots', root_cases, run_root, setup=reset),
               Stage('real parts', real_cases, run_real, setup=reset),
               Stage('scalar products', dot_cases, run_dot, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
