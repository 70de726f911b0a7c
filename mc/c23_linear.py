"""C23: simultaneous diagonalization, alignment, fusion function, quadratic forms, inverse, volume."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import arr, close, close_flat, expect, expect_error, flat, forms, gamma_ball, reset
from ellipy.elltool.core.core import ell_fusion_lambda, ell_sim_diag, ell_unitball, ell_valign
from ellipy.gras.geom.ell.ell import ell_volume, inv_mat, quad_mat


def top(m):
    return max([1.] + [abs(float(x)) for r in m for x in r])


# -- simultaneous diagonalization -----------------------------------------------------------
def check_diag(a, b, tol, what, fa=None, fb=None):
    n = len(a)
    x, y = arr(a) if fa is None else fa, arr(b) if fb is None else fb
    kx, ky = x.copy(), y.copy()
    t = np.asarray(ell_sim_diag(x, y, tol))
    expect(np.array_equal(x, kx) and np.array_equal(y, ky), '{}: arguments changed', what)
    expect(t.shape == (n, n) and np.isrealobj(t), '{}: {!r}', what, t)
    s = max(1., float(np.max(np.abs(t))) ** 2)
    close(t @ arr(a) @ t.T, ora.eye(n), 1e-9 * s * top(a), '{}: the first matrix does not become the identity'.format(what), 1.)
    d = t @ arr(b) @ t.T
    off = float(np.max(np.abs(d - np.diag(np.diagonal(d)))))
    expect(off <= 1e-9 * s * top(b), '{}: the second matrix becomes {}', what, d.tolist())


def diag_cases(tier):
    for n in (1, 2, 3):
        for a in ora.pd(n, (1, 2, 3) if n < 3 else (1, 2), (0, 1, -1)):
            yield [n, a, 1 if tier != 'quick' or n < 3 else 3]
    for k in range(1, 5):
        yield [4, k, 1]
        yield [5, k, 1]


def run_diag(case, rec):
    n, a, step = case
    if n > 3:
        k = a
        for e in ([1, 1, 2, 2, 3], [1, 4, 9, 16, 25], [2, 2, 2, 2, 2], [Fr(1, 8), 1, 1, 8, 64]):
            a, _ = ora.spread(n, e[:n], k)
            for g in ([0, 0, 0, 0, 0], [1, -1, 2, -2, 0], [3, 3, 1, 1, 1], [0, 0, 0, 1, 1], [1, 4, 9, 16, 25]):
                for j in range(4):
                    b, _ = ora.spread(n, g[:n], j)
                    check_diag(a, b, 1e-6, 'diagonalizing spectra {} ({}) and {} ({})'.format(ora.fl(e[:n]), k, g[:n], j))
            check_diag(a, a, 1e-6, 'diagonalizing a matrix with itself')
            check_diag(a, ora.mscal(-2, a), 1e-6, 'diagonalizing a matrix with its multiple')
        rec.outcome(n)
        return
    for i, b in enumerate(ora.sym(n, (0, 1, -2) if n > 1 else (0, 1, -2, 3), (0, 1, -1))):
        if i % step:
            continue
        what = 'diagonalizing {} and {}'.format(a, b)
        check_diag(a, b, 1e-6, what)
        for sc in ((Fr(1, 2 ** 8), 2 ** 10), (2 ** 10, Fr(1, 2 ** 8))) if i % (step * step) == 0 else ():
            check_diag(ora.mscal(sc[0], a), ora.mscal(sc[1], b), 1e-6, what + ' times {} {}'.format(*sc))
    for k, f in forms(a):
        if k != 'complex0':
            b = ora.diag([1, -1, 2][:n])
            check_diag(a, b, 1e-6, 'diagonalizing {}'.format(k), f, dict(forms(b))[k])
    rec.outcome(n)


def rej_cases(tier):
    for n in (1, 2, 3):
        yield n


def run_rej(n, rec):
    for a in ora.sym(n, (0, 1, -1, 2), (0, 1, -1)):
        w = ora.jacobi(a)[0][0]
        if not ora.is_pd(a):
            expect_error(lambda: ell_sim_diag(arr(a), np.eye(n), 1e-6), 'a_mat', 'first matrix {} is not positive definite'.format(a))
        else:
            expect_error(lambda: ell_sim_diag(arr(a), np.eye(n), 1.5 * w), 'a_mat', 'first matrix {} is not positive definite within {}'.format(a, 1.5 * w))
            for f, ok in ((0.5, True), (2., False)):
                if n > 1:
                    b = np.diag(np.arange(1., n + 1))
                    b[0, n - 1] = f * 1e-6
                    if ok:
                        ell_sim_diag(arr(a), b, 1e-6)
                    else:
                        expect_error(lambda: ell_sim_diag(arr(a), b, 1e-6), 'b_mat', 'asymmetry {}'.format(f * 1e-6))
            for m in (1, 2, 3, 4):
                if m != n:
                    expect_error(lambda: ell_sim_diag(arr(a), np.eye(m), 1e-6), '', 'sizes {} and {}'.format(n, m))
            expect_error(lambda: ell_sim_diag(arr(a), np.ones((n, n + 1)), 1e-6), '', 'a rectangular matrix')
            expect_error(lambda: ell_sim_diag(np.ones((n, n + 1)), arr(a), 1e-6), '', 'a rectangular matrix')
            expect_error(lambda: ell_sim_diag(arr(a), np.full((n, n), 'a'), 1e-6), 'wrongInput', 'a matrix of text')
            expect_error(lambda: ell_sim_diag(np.full((n, n), 'a'), arr(a), 1e-6), 'wrongInput', 'a matrix of text')
    rec.outcome(n)


# -- alignment --------------------------------------------------------------------------------
def align_cases(tier):
    for n in (1, 2, 3, 4):
        v = ora.dirs(n, (0, 1, -1)) if n < 4 else ora.dirs(4, (0, 1, -2))[::5 if tier == 'quick' else 1]
        for x in v:
            yield [n, x]


def check_align(t, v, x, what):
    n = len(v)
    t = np.asarray(t)
    expect(t.shape == (n, n), '{}: {!r}', what, t)
    close(t.T @ t, ora.eye(n), 1e-9, '{}: {} is not orthogonal'.format(what, t.tolist()))
    close_flat(t @ (arr(x) / ora.norm(ora.fl(x))), arr(v) / ora.norm(ora.fl(v)), 1e-9, '{}: image of the second vector'.format(what))


def run_align(case, rec):
    n, x = case
    for i, v in enumerate(ora.dirs(n, (0, 1, -1)) if n < 4 else ora.dirs(4, (0, 1, -1))[::3]):
        what = 'aligning {} with {}'.format(x, v)
        for sv, sx in ((1., 1.), (2. ** 30, 2. ** -30), (3., 1e-3)):
            a, b = arr(v) * sv, arr(x) * sx
            ka, kb = a.copy(), b.copy()
            check_align(ell_valign(a, b), v, x, what)
            expect(np.array_equal(a, ka) and np.array_equal(b, kb), '{}: arguments changed', what)
        c = lambda z: arr(z).reshape(-1, 1)
        r = lambda z: arr(z).reshape(1, -1)
        for f, g in ((c, c), (r, r), (arr, c), (c, arr), (r, c), (lambda z: np.array(z, dtype=int), arr)):
            check_align(ell_valign(f(v), g(x)), v, x, what)
        if n == 1:
            check_align(ell_valign(np.array(float(v[0])), np.array(float(x[0]))), v, x, what)
    for m in (1, 2, 3, 4):
        if m != n:
            expect_error(lambda: ell_valign(np.ones(m), arr(x)), 'v,x', 'dimensions {} {}'.format(m, n))
            expect_error(lambda: ell_valign(arr(x), np.ones((m, 1))), 'v,x', 'dimensions {} {}'.format(m, n))
    for bad in (np.ones((2, 2)), np.ones((2, 3)), np.ones((2, 1, 2))):
        expect_error(lambda: ell_valign(bad, arr(x)), 'wrongInput:v', 'first argument a matrix')
        expect_error(lambda: ell_valign(arr(x), bad), 'wrongInput:x', 'second argument a matrix')
    expect_error(lambda: ell_valign(np.array(['a'] * n), arr(x)), 'v,x', 'text')
    expect_error(lambda: ell_valign(arr(x), np.array(['a'] * n)), 'v,x', 'text')
    rec.outcome(n)


# -- quadratic forms ------------------------------------------------------------------------
def quad_cases(tier):
    for a in (-2, 1, 3):
        yield [1, [[a]]]
    for v in itertools.product((0, 1, -2, 3), repeat=4):
        m = [list(v[:2]), list(v[2:])]
        yield [2, m]
    for i, v in enumerate(itertools.product((0, 1, -1), repeat=9)):
        if i % (149 if tier == 'quick' else 5) == 0:
            yield [3, [list(v[:3]), list(v[3:6]), list(v[6:])]]
    for k in range(1, 7):
        yield [4, [[((i * 3 + j * 5 + i * j * k + k) % 7) - 3 for j in range(4)] for i in range(4)]]


def orient(v):
    a = arr(v)
    return [a, a.reshape(-1, 1), a.reshape(1, -1)]


def run_quad(case, rec):
    n, q = case
    d = ora.det(q)
    inv = ora.inv(q) if d else None
    cond = 1. if not d else max(1., top(inv)) * top(q)
    qa = arr(q)
    if d:
        close(inv_mat(qa), inv, 1e-13 * cond, 'inverse of {}'.format(q))
        close(inv_mat(qa.astype(int)), inv, 1e-13 * cond, 'inverse of {}'.format(q))
    vs = ora.vecs(n, (0, 1, -2)) if n < 3 else ora.vecs(n, (0, 1, -2))[::5 if n == 3 else 11]
    for i, x in enumerate(vs):
        for j, c in enumerate([None] + vs):
            z = x if c is None else ora.sub(x, c)
            for mode in ('plain', 'inv', 'invadv', 'INV', 'Plain'):
                if mode.lower() != 'plain' and not d:
                    continue
                m = q if mode.lower() == 'plain' else inv
                want = float(ora.quad(m, z))
                what = 'form {} at {} shifted by {} in mode {}'.format(q, x, c, mode)
                ox, oc = orient(x), orient(c) if c is not None else None
                for f in (range(3) if n < 3 or (i + j) % 4 == 0 else [(i + j) % 3]):
                    xx = ox[f]
                    kx = xx.copy()
                    if c is None:
                        r = quad_mat(qa, xx, mode=mode)
                    else:
                        cc = oc[(f + i) % 3]
                        kc = cc.copy()
                        r = quad_mat(qa, xx, cc, mode)
                        expect(np.array_equal(kc, cc) and kc.shape == cc.shape, '{}: the center changed', what)
                    expect(np.array_equal(kx, xx) and kx.shape == xx.shape, '{}: the vector changed', what)
                    expect(np.size(r) == 1, '{}: {!r}', what, r)
                    close_flat(r, [want], 1e-12 * cond, what, max(1., abs(want)) * 10)
            if c is None:
                for zero in (0, 0., np.array([0.]), np.array(0.), np.zeros(n), np.zeros((n, 1))):
                    close_flat(quad_mat(qa, orient(x)[0], zero), [float(ora.quad(q, x))], 1e-12, 'zero center')
        if i % 3 == 0 and n == 1:
            close_flat(quad_mat(qa, arr(x), 3), [float(q[0][0] * (x[0] - 3) ** 2)], 1e-12, 'scalar center')
    rec.outcome((n, d == 0))


def badq_cases(tier):
    return [1, 2, 3]


def run_badq(n, rec):
    q, x = np.eye(n) * 2, np.ones(n)
    t = np.full((n, n), 'a')
    expect_error(lambda: quad_mat(t, x), 'q_mat', 'text')
    expect_error(lambda: quad_mat(q, np.array(['a'] * n)), 'x_vec', 'text')
    expect_error(lambda: quad_mat(q, x, np.array(['a'] * n)), 'c_vec', 'text')
    expect_error(lambda: quad_mat(q, x, 'a'), 'c_vec', 'text')
    for m in ('', 'invv', 'direct', 'plain ', 'advinv'):
        expect_error(lambda: quad_mat(q, x, 0., m), 'mode', 'mode {!r}'.format(m))
    for b in (np.ones((n, n + 1)), np.ones((n + 1, n)), np.ones((n,)), np.ones((n, n, 1)), np.ones((n, n, 2))):
        expect_error(lambda: quad_mat(b, x), 'q_mat', 'matrix of shape {}'.format(b.shape))
        expect_error(lambda: inv_mat(b), 'q_mat', 'matrix of shape {}'.format(b.shape))
    for b in (np.ones((2, 2)), np.ones((2, 3)), np.ones((1, 1, 1))):
        expect_error(lambda: quad_mat(q, b), 'x_vec', 'vector of shape {}'.format(b.shape))
        expect_error(lambda: quad_mat(q, x, b), 'c_vec', 'center of shape {}'.format(b.shape))
    for m in (1, 2, 3, 4):
        if m != n:
            for b in orient([1.] * m):
                for mode in ('plain', 'inv', 'invadv'):
                    expect_error(lambda: quad_mat(q, b, 0., mode), 'x_vec', 'vector of dimension {}'.format(m))
                    expect_error(lambda: quad_mat(q, x, b, mode), 'c_vec', 'center of dimension {}'.format(m))
    rec.outcome(n)


# -- volume, unit ball --------------------------------------------------------------------------
def vol_cases(tier):
    for n in range(1, 10):
        yield n


def run_vol(n, rec):
    ball = ell_unitball(n)
    c, q = ball.double()
    close_flat(c, [0.] * n, 0., 'center of the unit ball')
    close(q, ora.eye(n), 0., 'shape of the unit ball')
    ms = [ora.eye(n), ora.diag([i + 1 for i in range(n)])]
    if n <= 3:
        ms += ora.pd(n, (1, 2, 4), (0, 1, -1))
    for k in range(1, 5):
        ms.append(ora.spread(n, [Fr(i + 1, 2) for i in range(n)], k)[0])
        ms.append(ora.spread(n, [4 if i % 2 else Fr(1, 9) for i in range(n)], k)[0])
    for m in ms:
        for sc in (1, Fr(1, 16), 9):
            mm = ora.mscal(sc, m)
            want = math.sqrt(float(ora.det(mm))) * gamma_ball(n)
            got = ell_volume(arr(mm))
            expect(np.size(got) == 1 and abs(float(got) - want) <= 1e-10 * want, 'volume of {}: {} instead of {}', ora.fl(mm), got, want)
            close(inv_mat(arr(mm)), ora.inv(mm), 1e-9, 'inverse of {}'.format(ora.fl(mm)))
    # degenerate ellipsoids have volume zero
    ms = [ora.diag([0] * n), ora.diag([1] * (n - 1) + [0]), ora.diag([0] + [3] * (n - 1))]
    if n <= 3:
        ms += [m for m in ora.psd(n, (0, 1, 2), (0, 1, -1)) if ora.det(m) == 0]
    for m in ms:
        got = ell_volume(arr(m))
        expect(np.size(got) == 1 and 0 <= float(got) < 1e-6, 'volume of the degenerate {}: {}', ora.fl(m), got)
    for k in range(-60, 61, 20):
        m = ora.diag([i + 1 for i in range(n)])
        if abs(k * n) > 400:
            continue
        want = math.sqrt(float(ora.det(m))) * gamma_ball(n) * 2. ** (k * n)
        got = float(ell_volume(arr(m) * 4. ** k))
        expect(abs(got - want) <= 1e-10 * want, 'volume of {} scaled by 4^{}: {} instead of {}', ora.fl(m), k, got, want)
    rec.outcome(n)


# -- fusion function --------------------------------------------------------------------------
def fus_cases(tier):
    for n in (1, 2, 3):
        ms = ora.pd(n, (1, 2) if n > 1 else (1, 2, 5), (0, 1))
        for i, a in enumerate(ms):
            yield [n, a, tier]


def run_fus(case, rec):
    n, a, tier = case
    cs = ora.vecs(n, (0, 1, -2)) if n < 3 else ora.vecs(3, (0, 1, -2))[::4 if tier != 'quick' else 8]
    for b in ora.pd(n, (1, 3), (0, -1))[::1 if n < 3 or tier != 'quick' else 5]:
        for p in cs:
            for q in cs:
                for lam in (Fr(0), Fr(1), Fr(1, 4), Fr(1, 2), Fr(7, 8)):
                    x = ora.madd(ora.mscal(lam, a), ora.mscal(1 - lam, b))
                    y = ora.inv(x)
                    dx = ora.det(x)
                    e = ora.sub(q, p)
                    k = 1 - lam * (1 - lam) * ora.dot(e, ora.mv(b, ora.mv(y, ora.mv(a, e))))
                    z = ora.mv(y, ora.add(ora.scal(lam, ora.mv(a, p)), ora.scal(1 - lam, ora.mv(b, q))))
                    tr = sum(ora.mm(ora.mscal(dx, y), ora.msub(a, b))[i][i] for i in range(n))
                    f = k * dx * tr - n * dx * dx * (2 * ora.dot(z, ora.mv(a, p)) - 2 * ora.dot(z, ora.mv(b, q)) + ora.quad(ora.msub(b, a), z) - ora.quad(a, p) + ora.quad(b, q))
                    for col in (False, True):
                        args = [arr(p), arr(a), arr(q), arr(b)]
                        if col:
                            args[0], args[2] = args[0].reshape(-1, 1), args[2].reshape(-1, 1)
                        keep = [v.copy() for v in args]
                        got = ell_fusion_lambda(float(lam), args[0], args[1], args[2], args[3], n)
                        what = 'fusion function of {} {} and {} {} at {}'.format(p, a, q, b, lam)
                        expect(all(np.array_equal(u, v) for u, v in zip(args, keep)), '{}: arguments changed', what)
                        expect(np.size(got) == 1, '{}: {!r}', what, got)
                        close_flat(got, [float(f)], 1e-11, what, max(1., abs(float(f)), float(dx * dx) * 100))
    rec.outcome(n)


CHECK = Check('C23', 'exploration',
              'all pairs of a positive definite and a symmetric integer matrix (n up to 3) and prescribed spectra (4, 5); all pairs of vectors for alignment; all small matrices x vectors '
              'x centers x modes x orientations for quadratic forms; volumes in dimensions 1..9; the fusion function in exact arithmetic; non-trivial: dimension at least 2',
              generic('C23') +
              [Stage('diagonalization', diag_cases, run_diag, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('diagonalization rejected', rej_cases, run_rej, setup=reset),
               Stage('alignment', align_cases, run_align, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('quadratic forms', quad_cases, run_quad, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('forms rejected', badq_cases, run_badq, setup=reset),
               Stage('volume', vol_cases, run_vol, setup=reset),
               Stage('fusion', fus_cases, run_fus, nontrivial=lambda c: c[0] > 1, setup=reset)])
