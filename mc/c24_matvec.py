"""C24: operations on arrays of matrices act slice by slice."""
import itertools
import math

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import arr, close, close_flat, expect, expect_error, reset
from ellipy.gras.gen.gen import MatVector, SquareMatVector, SymmetricMatVector


def mat(r, c, seed):
    """Pairwise different entries in every row and column and between seeds."""
    return [[(3 * i * i + 5 * j + 7 * i * j * (seed + 1) + 11 * seed * (i + 1) + (seed * seed + 2) * (j + i)) % 23 - 11 + (i == j) * 40 * (seed + 1) for j in range(c)] for i in range(r)]


def unit(r, c, p):
    m = [[0] * c for _ in range(r)]
    m[p // c][p % c] = 1
    return m


def symm(n, seed):
    m = mat(n, n, seed)
    return [[m[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]


def stack(ms, kind=None):
    """kind None: one matrix as a matrix."""
    if kind == 'flat':
        return arr(ms[0])
    return np.dstack([arr(m) for m in ms]).astype(float)


def layouts(a):
    yield a
    yield np.asfortranarray(a)
    big = np.zeros(tuple(2 * k for k in a.shape))
    sl = tuple(slice(None, None, 2) for _ in a.shape)
    big[sl] = a
    yield big[sl]
    yield a.astype(int)


def times(t):
    return 1 if t == 'flat' else t


def call(f, what, *args):
    keep = [a.copy() for a in args]
    r = f(*args)
    for a, k in zip(args, keep):
        expect(a.shape == k.shape and np.array_equal(a, k), '{}: arguments changed', what)
    return r


def slices(r, wants, what, tol=1e-11, flat_ok=False):
    """r has one slice per want."""
    r = np.asarray(r)
    w = np.dstack([np.array(ora.fl(m), dtype=float).reshape(len(m), -1) for m in wants])
    if flat_ok and r.ndim == 2:
        expect(len(wants) == 1, '{}: shape {}', what, r.shape)
        r = r[:, :, None]
    expect(r.shape == w.shape, '{}: shape {} instead of {}', what, r.shape, w.shape)
    close(r, w, tol, what)


# -- one argument -----------------------------------------------------------------------------
def one_cases(tier):
    top = 4 if tier == 'quick' else 5
    for r in range(1, top):
        for c in range(1, top):
            for t in ['flat', 1, 2, 3]:
                yield [r, c, t]


def pinv_ok(p, m, what):
    """Penrose equations."""
    m = arr(m)
    s = max(1., float(np.max(np.abs(m)))) * max(1., float(np.max(np.abs(p))))
    for x, y in ((m @ p @ m, m), (p @ m @ p, p), ((m @ p).T, m @ p), ((p @ m).T, p @ m)):
        close(x, y, 1e-9 * s, what, max(1., float(np.max(np.abs(y)))))


def run_one(case, rec):
    r, c, t = case
    sets = [[mat(r, c, s + 3 * k) for s in range(times(t))] for k in range(3)]
    sets += [[unit(r, c, (p + s) % (r * c)) for s in range(times(t))] for p in range(r * c)]
    sets.append([[[0] * c for _ in range(r)] for _ in range(times(t))])
    for ms in sets:
        for a in layouts(stack(ms, t)):
            what = 'matrices {}'.format(ms)
            slices(call(MatVector.transpose, what, a), [ora.T(m) for m in ms], what + ' transposed', 0.)
            slices(call(MatVector.triu, what, a), [[[x if j >= i else 0 for j, x in enumerate(row)] for i, row in enumerate(m)] for m in ms], what + ': upper triangle', 0.)
            p = np.asarray(call(MatVector.pinv, what, a))
            expect(p.shape == (c, r, times(t)), '{}: pseudoinverse of shape {}', what, p.shape)
            for k, m in enumerate(ms):
                pinv_ok(p[:, :, k], m, '{}: pseudoinverse of slice {}'.format(what, k))
            if r == c:
                slices(call(MatVector.make_symmetric, what, a), [[[(m[i][j] + m[j][i]) / 2 for j in range(c)] for i in range(r)] for m in ms], what + ': symmetric part', 1e-15)
                if all(ora.det(m) for m in ms):
                    res = np.asarray(call(SquareMatVector.inv, what, a))
                    expect(res.shape == a.shape, '{}: inverse of shape {}', what, res.shape)
                    slices(res, [ora.inv(m) for m in ms], what + ': inverse', 1e-11, True)
    rec.outcome(case)


def sq_cases(tier):
    for n in (1, 2, 3, 4):
        for t in ['flat', 1, 2, 3]:
            yield [n, t]


def fun(m, f):
    w, v = ora.jacobi(m)
    n = len(m)
    return [[sum(v[i][k] * f(w[k]) * v[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def run_sq(case, rec):
    n, t = case
    k = times(t)
    eigs = [[1, 4, 9, 16], [4, 4, 1, 1], [0.25, 1, 1, 2], [9, 1, 4, 4], [-1, 2, 3, 4], [5, -2, -3, 1], [-4, -4, -4, -4]]
    ms = [ora.fl(ora.spread(n, e[:n], i % 4 + 1 if n > 1 else 0)[0]) for i, e in enumerate(eigs)]
    neg = [any(x < 0 for x in e[:n]) for e in eigs]
    for pick in itertools.product(range(len(ms)), repeat=k):
        sel = [ms[i] for i in pick]
        a = stack(sel, t)
        what = 'matrices {}'.format(pick)
        r = np.asarray(call(SquareMatVector.make_pos_definite_or_nan, what, a))
        expect(r.shape == a.shape, '{}: shape {}', what, r.shape)
        for j, i in enumerate(pick):
            s = r if t == 'flat' else r[:, :, j]
            if neg[i]:
                expect(np.all(np.isnan(s)), '{}: slice {} is {} instead of NaN', what, j, s)
            else:
                close(s, sel[j], 0., '{}: slice {}'.format(what, j))
        if any(neg[i] for i in pick):
            expect_error(lambda: SquareMatVector.sqrtm_pos(a), 'notPosSemDef', what + ': square roots')
        else:
            r = np.asarray(call(SquareMatVector.sqrtm_pos, what, a))
            expect(r.shape == a.shape, '{}: shape {}', what, r.shape)
            slices(r, [fun(m, math.sqrt) for m in sel], what + ': square roots', 1e-9, True)
        for val in (None, 1e-3, 0.5, 2.):
            f = (lambda x: SquareMatVector.make_pos_definite_by_eig(x)) if val is None else (lambda x: SquareMatVector.make_pos_definite_by_eig(x, val))
            r = np.asarray(call(f, what, a))
            expect(r.shape == a.shape, '{}: shape {}', what, r.shape)
            slices(r, [fun(m, lambda x: x if x >= 0 else 1e-12 if val is None else val) for m in sel], what + ': eigenvalues raised to {}'.format(val), 1e-9, True)
        rec.outcome((n, tuple(neg[i] for i in pick)))
    if n > 1:
        b = stack([ms[0]] * k, t).copy()
        if t == 'flat':
            b[0, 1] += 1e-3
        else:
            b[0, 1, k - 1] += 1e-3
        expect_error(lambda: SquareMatVector.make_pos_definite_by_eig(b), '', 'an asymmetric slice')
        expect_error(lambda: SquareMatVector.sqrtm_pos(b), 'nonSymmMat', 'an asymmetric slice')


def zero_cases(tier):
    for n in (1, 2, 3):
        for k in (1, 2, 3):
            yield [n, k]


def run_zero(case, rec):
    """Slices with eigenvalues that are exactly zero: only negative ones are replaced."""
    n, k = case
    ds = list(itertools.product((0, -1, 1, 4), repeat=n))
    if n == 3:
        ds = ds[::5]
    for pick in itertools.product(range(len(ds)), repeat=k) if k < 2 or n == 1 else [[(i * (j + 1) + 3 * j) % len(ds) for j in range(k)] for i in range(len(ds))]:
        for val in (None, 0.5, 2., 1e-3):
            a = stack([ora.fl(ora.diag(ds[i])) for i in pick], k)
            f = (lambda x: SquareMatVector.make_pos_definite_by_eig(x)) if val is None else (lambda x: SquareMatVector.make_pos_definite_by_eig(x, val))
            want = [np.diag([float(x) if x >= 0 else 1e-12 if val is None else val for x in ds[i]]) for i in pick]
            what = 'diagonals {}: eigenvalues raised to {}'.format([ds[i] for i in pick], val)
            r = np.asarray(f(a))
            expect(r.shape == a.shape, '{}: shape {}', what, r.shape)
            for j, w in enumerate(want):
                close(r[:, :, j], w, 1e-14, '{}: slice {}'.format(what, j))
                close(f(a[:, :, j]), w, 1e-14, '{}: matrix {}'.format(what, j))
    rec.outcome(n)


# -- products -----------------------------------------------------------------------------------
def mul(a, b):
    if ora.shape(a) == (1, 1):
        return ora.mscal(a[0][0], b)
    if ora.shape(b) == (1, 1):
        return ora.mscal(b[0][0], a)
    return ora.mm(a, b)


def prod_cases(tier):
    for r in (1, 2, 3):
        for k in (1, 2, 3):
            for c in (1, 2, 3):
                yield [r, k, c]
    if tier != 'quick':
        for x in ([4, 2, 5], [5, 4, 3], [1, 5, 4], [4, 4, 4]):
            yield x


def seq(r, c, t, s):
    return [mat(r, c, s + 2 * i) for i in range(times(t))]


def at(ms, i):
    return ms[0] if len(ms) == 1 else ms[i]


def run_prod(case, rec):
    r, k, c = case
    for t in ('flat', 1, 2, 3, 4):
        for tb in sorted({'flat', '1', str(times(t))}):
            tb = 'flat' if tb == 'flat' else int(tb)
            for (sa, sb) in {((r, k), (k, c)), ((1, 1), (k, c)), ((r, k), (1, 1))}:
                A, B = seq(sa[0], sa[1], t, 0), seq(sb[0], sb[1], tb, 1)
                want = [mul(A[i], at(B, i)) for i in range(times(t))]
                for a in layouts(stack(A, t)):
                    for b in layouts(stack(B, tb)):
                        for sp in (False, True):
                            what = 'product of {} x {} and {} x {}, sparse: {}'.format(sa, t, sb, tb, sp)
                            slices(call(lambda x, y: MatVector.r_multiply(x, y, None, sp), what, a, b), want, what)
                        slices(call(lambda x, y: MatVector.r_multiply(x, y), what, a, b), want, what)
            for tc in sorted({'flat', '1', str(times(t))}):
                tc = 'flat' if tc == 'flat' else int(tc)
                for d in (1, 2, 3):
                    for sa, sb, sc in {((r, k), (k, c), (c, d)), ((1, 1), (k, c), (c, d)), ((r, k), (1, 1), (k, d)), ((1, 1), (1, 1), (c, d))}:
                        A, B, C = seq(sa[0], sa[1], t, 0), seq(sb[0], sb[1], tb, 1), seq(sc[0], sc[1], tc, 2)
                        want = [mul(mul(A[i], at(B, i)), at(C, i)) for i in range(times(t))]
                        for sp in (False, True):
                            what = 'product of {} x {}, {} x {} and {} x {}, sparse: {}'.format(sa, t, sb, tb, sc, tc, sp)
                            slices(call(lambda x, y, z: MatVector.r_multiply(x, y, z, sp), what, stack(A, t), stack(B, tb), stack(C, tc)), want, what)
        # vectors
        A = seq(r, k, t, 0)
        for v in [[[(5 * i + 3 * j * j + i * j + 1) % 13 - 6 for j in range(times(t))] for i in range(k)]] + [unit(k, times(t), p) for p in range(k * times(t))]:
            want = [[ora.dot(A[j][i], [v[x][j] for x in range(k)]) for j in range(times(t))] for i in range(r)]
            for a in layouts(stack(A, t)):
                for b in list(layouts(arr(v)))[:4]:
                    for sp in (False, True):
                        what = 'product of {} x {} by vectors {}, sparse: {}'.format((r, k), t, v, sp)
                        close(call(lambda x, y: MatVector.r_multiply_by_vec(x, y, sp), what, a, b), want, 1e-12, what)
                    close(call(lambda x, y: MatVector.r_multiply_by_vec(x, y), what, a, b), want, 1e-12, what)
        for tb in (2, 3, 4, 5):
            if tb != times(t) and times(t) > 1 and (r, k) != (1, 1):
                expect_error(lambda: MatVector.r_multiply(stack(A, t), stack(seq(k, c, tb, 1), tb)), 'wrongInput', 'numbers of time points {} and {}'.format(t, tb))
        for sp in (False, True):
            for bad in (np.ones(k), np.ones((k, times(t), 1)), np.ones((k, 1, times(t)))):
                expect_error(lambda: MatVector.r_multiply_by_vec(stack(A, t), bad, sp), 'wrongInput', 'vectors of shape {}'.format(bad.shape))
    rec.outcome(case)


# -- products from both sides --------------------------------------------------------------
def lr_cases(tier):
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for tb in ('flat', 1, 2, 3):
                for ta in ('flat', 1, 2, 3):
                    if ta == 'flat' or tb != 'flat' and ta == tb:
                        yield [n, m, tb, ta]


def run_lr(case, rec):
    n, m, tb, ta = case
    for gen in (mat, lambda r, c, s: symm(r, s)):
        for s in range(3):
            B = [gen(n, n, s + 2 * i) for i in range(times(tb))]
            for flag in ('R', 'L'):
                A = seq(n, m, ta, 1 + s) if flag == 'R' else seq(m, n, ta, 1 + s)
                k = max(times(tb), times(ta))
                want = []
                for i in range(k):
                    a, b = at(A, i), at(B, i)
                    want.append(ora.mm(ora.mm(ora.T(a), b), a) if flag == 'R' else ora.mm(ora.mm(a, b), ora.T(a)))
                what = 'product of {} from both sides by {}, {}'.format(B, A, flag)
                for x in list(layouts(stack(B, tb))):
                    y = stack(A, ta)
                    r = call(lambda u, v: SquareMatVector.lr_multiply(u, v, flag), what, x, y)
                    slices(r, want, what, flat_ok=tb == 'flat')
                    if flag == 'R':
                        slices(call(lambda u, v: SquareMatVector.lr_multiply(u, v), what, x, y), want, what, flat_ok=tb == 'flat')
                    if gen is not mat and (times(ta) == times(tb)):
                        slices(call(lambda u, v: SymmetricMatVector.lr_svd_multiply(u, v, flag), what, x, y), want, 'through eigenvectors: ' + what, 1e-9, flat_ok=tb == 'flat')
            for bad in ('r', 'X', '', 'RL'):
                expect_error(lambda: SquareMatVector.lr_multiply(stack(B, tb), stack(A, ta), bad), 'wrong', 'flag {!r}'.format(bad))
                expect_error(lambda: SymmetricMatVector.lr_svd_multiply(stack(B, tb), stack(A, ta), bad), 'flag', 'flag {!r}'.format(bad))
    rec.outcome(case)


def vec_cases(tier):
    for n in (1, 2, 3, 4):
        for tb in ('flat', 1, 2, 3):
            yield [n, tb]


def run_vec(case, rec):
    n, tb = case
    for gen in (mat, lambda r, c, s: symm(r, s)):
        for s in range(4):
            B = [gen(n, n, s + 2 * i) for i in range(times(tb))]
            if not all(ora.det(b) for b in B):
                continue
            x = stack(B, tb)
            inv = [ora.inv(b) for b in B]
            for k in ((1, 2, 3) if tb == 'flat' else sorted({1, tb})):
                vs = [[[(5 * i + 3 * j * j + i * j * s + 1 + s) % 13 - 6 for j in range(k)] for i in range(n)]] + [unit(n, k, p) for p in range(n * k)]
                for v in vs:
                    col = ora.T(v)
                    for f in ([arr(v), np.asfortranarray(arr(v)), arr(v).astype(int)] + ([arr(v)[:, 0]] if k == 1 else [])):
                        what = 'forms {} of vectors {} (shape {})'.format(B, v, f.shape)
                        if k == 1 and times(tb) > 1:
                            # one vector, several matrices: quotients only
                            r = call(SquareMatVector.lr_divide_vec, what, x, f)
                            close_flat(r, [ora.quad(q, col[0]) for q in inv], 1e-11, what + ': quotients')
                            continue
                        r = call(SquareMatVector.lr_multiply_by_vec, what, x, f)
                        close(np.reshape(r, (-1,)) if np.shape(r) == (1, k) else r, [ora.quad(at(B, i), col[i]) for i in range(k)], 1e-11, what)
                        r = call(SquareMatVector.lr_divide_vec, what, x, f)
                        close_flat(r, [ora.quad(at(inv, i), col[i]) for i in range(k)], 1e-11, what + ': quotients')
                        if gen is not mat and f.ndim == 2:
                            r = call(SymmetricMatVector.lr_svd_divide_vec, what, x, f)
                            close_flat(r, [ora.quad(at(inv, i), col[i]) for i in range(k)], 1e-9, what + ': quotients through eigenvectors')
                            if k == times(tb):
                                r = call(SymmetricMatVector.lr_svd_multiply_by_vec, what, x, f)
                                close_flat(r, [ora.quad(at(B, i), col[i]) for i in range(k)], 1e-9, what + ' through eigenvectors')
                                r = call(SymmetricMatVector.r_svd_multiply_by_vec, what, x, f)
                                close(r, ora.T([ora.mv(at(B, i), col[i]) for i in range(k)]), 1e-9, what + ': products through eigenvectors')
    rec.outcome(case)


# -- special matrices ---------------------------------------------------------------------------
def pool(n):
    """Matrices with a structure that a shortcut could look for."""
    eye = [[int(i == j) for j in range(n)] for i in range(n)]
    ps = [eye, [[3 * x for x in row] for row in eye], [[0] * n for _ in range(n)], [[(i + 2) * (i == j) for j in range(n)] for i in range(n)], [[1] * n for _ in range(n)],
          symm(n, 0), mat(n, n, 1)]
    if n > 1:
        ps += [[eye[(i + 1) % n] for i in range(n)], [[x if j >= i else 0 for j, x in enumerate(row)] for i, row in enumerate(mat(n, n, 0))],
               [[x if j <= i else 0 for j, x in enumerate(row)] for i, row in enumerate(mat(n, n, 0))], [[(i + 1) * (j + 2) for j in range(n)] for i in range(n)],
               [[-(i == j) * (1 if i else -1) for j in range(n)] for i in range(n)], [[2 * (i == j) - 1 * (abs(i - j) == 1) for j in range(n)] for i in range(n)]]
    return ps


def spm_cases(tier):
    for n in (1, 2, 3):
        for i in range(len(pool(n))):
            for t in ('flat', 1, 2, 3):
                yield [n, i, t, tier]


def run_spm(case, rec):
    n, i, t, tier = case
    ps = pool(n)
    k = times(t)
    cols = [[0] * n, [1] + [0] * (n - 1), [1] * n, [2, -1, 5][:n], [2] * n]
    for idx in ([[i]] if k == 1 else [[i] * k, *([i, j] + [i] * (k - 2) for j in range(0, len(ps), 3 if tier == 'quick' and n == 3 else 1) if j != i), *([j] * (k - 1) + [i] for j in range(0, len(ps), 4) if k > 2)]):
        B = [ps[j] for j in idx]
        x = stack(B, t)
        what = 'matrices {}'.format(B)
        slices(call(MatVector.transpose, what, x), [ora.T(m) for m in B], what + ' transposed', 0.)
        slices(call(MatVector.triu, what, x), [[[y if q >= p else 0 for q, y in enumerate(row)] for p, row in enumerate(m)] for m in B], what + ': upper triangle', 0.)
        slices(call(MatVector.make_symmetric, what, x), [[[(m[p][q] + m[q][p]) / 2 for q in range(n)] for p in range(n)] for m in B], what + ': symmetric part', 1e-15)
        r = np.asarray(call(MatVector.pinv, what, x))
        for j, m in enumerate(B):
            pinv_ok(r[:, :, j], m, '{}: pseudoinverse of slice {}'.format(what, j))
        regular = all(ora.det(m) for m in B)
        sym = all(m == ora.T(m) for m in B)
        if regular:
            slices(call(SquareMatVector.inv, what, x), [ora.inv(m) for m in B], what + ': inverse', 1e-11, True)
        if sym and all(min(ora.jacobi(m)[0]) > 1e-9 for m in B):
            slices(call(SquareMatVector.sqrtm_pos, what, x), [fun(m, lambda v: math.sqrt(v)) for m in B], what + ": square roots", 1e-9, True)
        for jdx in ([[0] * k, [k % len(ps)] * k] if k == 1 else [[(i + s * q + o) % len(ps) for q in range(k)] for s in (0, 1) for o in range(0, len(ps), 1 if n < 3 else 3)]):
            A = [ps[j] for j in jdx]
            for ta in {t, 'flat'}:
                y = stack(A, ta)
                A2 = A if ta == t else A[:1]
                if not (t == 'flat' and ta != 'flat'):
                    wh = 'products of {} and {}'.format(B, A2)
                    for sp in (False, True):
                        slices(call(lambda u, v: MatVector.r_multiply(u, v, None, sp), wh, x, y), [mul(b, at(A2, q)) for q, b in enumerate(B)], wh, flat_ok=True)
                    for flag in 'RL':
                        want = [ora.mm(ora.mm(ora.T(at(A2, q)), b), at(A2, q)) if flag == 'R' else ora.mm(ora.mm(at(A2, q), b), ora.T(at(A2, q))) for q, b in enumerate(B)]
                        slices(call(lambda u, v: SquareMatVector.lr_multiply(u, v, flag), wh, x, y), want, wh + ' from both sides ' + flag, flat_ok=t == 'flat')
                        if sym and len(A2) == len(B):
                            slices(call(lambda u, v: SymmetricMatVector.lr_svd_multiply(u, v, flag), wh, x, y), want, wh + ' from both sides, eigenvectors ' + flag, 1e-9, flat_ok=t == 'flat')
        for m in ((1, 2, 3) if t == 'flat' else {1, k}):
            for pick in itertools.product(range(len(cols)), repeat=m) if m < 3 else [[(o + s * q) % len(cols) for q in range(3)] for o in range(len(cols)) for s in range(3)]:
                vs = [cols[c] for c in pick]
                v = arr(ora.T(vs))
                wh = '{} and vectors {}'.format(what, vs)
                if m == k or t == 'flat':
                    if m == k:
                        for sp in (False, True):
                            close(call(lambda u, w: MatVector.r_multiply_by_vec(u, w, sp), wh, x, v), ora.T([ora.mv(b, c) for b, c in zip(B, vs)]), 1e-12, wh)
                    close_flat(call(SquareMatVector.lr_multiply_by_vec, wh, x, v), [ora.quad(at(B, q), c) for q, c in enumerate(vs)], 1e-11, wh + ': forms')
                if regular:
                    w = [ora.quad(ora.inv(at(B, q)), at(vs, q)) for q in range(max(len(B), m))]
                    close_flat(call(SquareMatVector.lr_divide_vec, wh, x, v), w, 1e-11, wh + ': quotients')
                    if sym and (m == k or t == 'flat'):
                        close_flat(call(SymmetricMatVector.lr_svd_divide_vec, wh, x, v), w, 1e-9, wh + ': quotients through eigenvectors')
                if sym and m == k:
                    close_flat(call(SymmetricMatVector.lr_svd_multiply_by_vec, wh, x, v), [ora.quad(b, c) for b, c in zip(B, vs)], 1e-9, wh + ': forms through eigenvectors')
                    close(call(SymmetricMatVector.r_svd_multiply_by_vec, wh, x, v), ora.T([ora.mv(b, c) for b, c in zip(B, vs)]), 1e-9, wh + ' through eigenvectors')
    rec.outcome((n, t, i))


CHECK = Check('C24', 'exploration',
              'all sizes up to 3 (4, 5 in part) in every dimension, 1..4 time points and single matrices, constant, varying and 1-by-1 factors, all flags, dense and sparse, all memory '
              'layouts, on matrices of pairwise different entries and unit matrices; non-trivial: several time points',
              generic('C24') +
              [Stage('one argument', one_cases, run_one, nontrivial=lambda c: times(c[2]) > 1, setup=reset),
               Stage('zero eigenvalues', zero_cases, run_zero, setup=reset),
               Stage('square', sq_cases, run_sq, nontrivial=lambda c: times(c[1]) > 1, setup=reset),
               Stage('products', prod_cases, run_prod, setup=reset),
               Stage('both sides', lr_cases, run_lr, nontrivial=lambda c: times(c[2]) > 1, setup=reset),
               Stage('special matrices', spm_cases, run_spm, nontrivial=lambda c: times(c[2]) > 1, setup=reset),
               Stage('vectors', vec_cases, run_vec, nontrivial=lambda c: times(c[1]) > 1, setup=reset)])
