"""C22: orthogonal translations."""
import itertools
import math

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import arr, close, close_flat, expect, expect_error, forms, reset
from ellipy.gras.la.la import ml_orth_transl, orth_transl, orth_transl_haus, orth_transl_max_dir, orth_transl_max_tr, orth_transl_qr

BASIC = [('orth_transl', orth_transl), ('orth_transl_haus', orth_transl_haus), ('orth_transl_qr', orth_transl_qr)]


def unit(v):
    v = arr(v)
    m = np.max(np.abs(v))
    v = v / m
    return v / math.sqrt(math.fsum(x * x for x in v))


def check_o(o, s, d, tol, what):
    """o is orthogonal and takes the direction of s to the direction of d."""
    n = len(s)
    o = np.asarray(o)
    expect(o.size == n * n and (n == 1 or o.shape == (n, n)) and np.isrealobj(o), '{}: {!r}', what, o)
    o = o.reshape(n, n)
    close(o.T @ o, ora.eye(n), 1e-9 if tol < 2e-7 else 1e-7, '{}: {} is not orthogonal'.format(what, o.tolist()))
    close_flat(o @ unit(s), unit(d), tol, '{}: image of the source'.format(what))
    return o


def run_all(s, d, tol, what, col=True):
    for name, f in BASIC:
        a, b = arr(s), arr(d)
        check_o(f(a, b), s, d, tol, '{}: {}'.format(name, what))
        expect(np.array_equal(a, arr(s)) and np.array_equal(b, arr(d)), '{}: {}: arguments changed', name, what)
        if col:
            check_o(f(a.reshape(-1, 1), b.reshape(-1, 1)), s, d, tol, '{} of columns: {}'.format(name, what))


def pair_cases(tier):
    for n in (1, 2, 3, 4):
        v = ora.dirs(n, (0, 1, -1)) if n < 3 or tier != 'quick' else ora.dirs(n, (0, 1, -1))[::2]
        for s in v:
            yield [n, s]
    for n in (2, 3):
        for s in ora.dirs(n, (0, 1, 2, -3))[::1 if n == 2 or tier != 'quick' else 4]:
            yield [-n, s]


def run_pair(case, rec):
    n, s = case
    if n < 0:
        tgt = ora.dirs(-n, (0, 1, 2, -3))
    else:
        tgt = ora.dirs(n, (0, 1, -1))
    for i, d in enumerate(tgt):
        run_all(s, d, 1e-7, '{} to {}'.format(s, d), col=i % 3 == 0)
        if i % 4 == 1:
            for e, g in ((-40, 40), (30, 0), (0, -30)):
                run_all([x * 2. ** e for x in s], [x * 2. ** g for x in d], 1e-7, '{} to {} scaled by 2^{}, 2^{}'.format(s, d, e, g), col=False)
        c = ora.dot(s, d)
        rec.outcome((abs(n), c > 0, c < 0, c * c == ora.dot(s, s) * ora.dot(d, d)))


def near_cases(tier):
    for n in (2, 3, 4, 5):
        for b in range(4):
            for sign in (1, -1):
                for e in range(-18, 0):
                    yield [n, b, sign, e]


BASE = [[1, 0, 0, 0, 0], [3, 4, 1, -1, 2], [-1, 1, -1, 1, -1], [0, 0, -2, 0, 1]]


def run_near(case, rec):
    """Nearly equal and nearly opposite vectors."""
    n, b, sign, e = case
    s = [float(x) for x in BASE[b][:n]]
    if not any(s):
        s[0] = 1.
    ns = math.sqrt(sum(x * x for x in s))
    for f in (1., 2., 5.):
        for j in range(n):
            p = [0.] * n
            p[j] = 1.
            d = [sign * x / ns + f * 10. ** e * y for x, y in zip(s, p)]
            for k in (1., 3.):
                run_all(s, ora.scal(k, d), 3e-7, '{} to {} times {}'.format(s, k, d), col=False)
                run_all(d, ora.scal(k, s), 3e-7, '{} to {} times {}'.format(d, k, s), col=False)
            for m in (None, 1, 2):
                if m is None:
                    o = orth_transl_max_tr(arr(s), arr(d), np.eye(n))
                else:
                    o = orth_transl_max_dir(arr(s), arr(d), arr(BASE[m][:n]), arr(BASE[3 - m][:n]))
                check_o(o, s, d, 3e-7, 'orth_transl_max_{}: {} to {}'.format('tr' if m is None else 'dir', s, d))
    rec.outcome((n, sign))


def big_cases(tier):
    for n in (5, 6, 9):
        for b in range(12):
            yield [n, b]


def run_big(case, rec):
    n, b = case
    vs = [[((i * i * (k + 1) + i * (k % 3) + k) % 7) - 3 for i in range(n)] for k in range(12)] + [[int(i == k) for i in range(n)] for k in range(n)] + [[-int(i == k) for i in range(n)] for k in range(n)]
    s = vs[b]
    for d in vs + [ora.scal(-1, s), ora.scal(2, s)]:
        if any(s) and any(d):
            run_all(s, d, 1e-7, '{} to {}'.format(s, d))
    rec.outcome(n)


# -- types and batches ------------------------------------------------------------------------
def batch_cases(tier):
    for n in (1, 2, 3, 4):
        for nv in (1, 2, 3):
            for ne in (0, 1, 2, 3):
                yield [n, nv, ne]


def run_batch(case, rec):
    """ne = 0: a matrix of targets, one per source."""
    n, nv, ne = case
    pool = ora.dirs(n, (1, -1, 0, 2))
    for k in range(6):
        src = [pool[(k * 5 + 3 * i) % len(pool)] for i in range(nv)]
        dst = [[pool[(k * 7 + 2 * i + 5 * j + 1) % len(pool)] for j in range(max(ne, 1))] for i in range(nv)]
        sm = arr(ora.T(src)).copy()
        da = np.array([[[float(dst[i][j][r]) for j in range(max(ne, 1))] for i in range(nv)] for r in range(n)])
        if ne == 0:
            da = da[:, :, 0]
        args = [(sm, da), (np.asfortranarray(sm), np.asfortranarray(da)), (sm.astype(int), da.astype(int)), (sm.astype(complex), da.astype(complex))]
        if nv == 1 and ne == 0:
            args += [(sm[:, 0], da[:, 0]), (sm, da[:, 0])]
        if nv == 1:
            args.append((sm[:, 0], da))
        for a, b in args:
            ka, kb = a.copy(), b.copy()
            o = np.asarray(ml_orth_transl(a, b))
            what = 'batch of {} to {}'.format(src, dst)
            expect(np.array_equal(a, ka) and np.array_equal(b, kb) and a.shape == ka.shape and b.shape == kb.shape, '{}: arguments changed', what)
            expect(o.shape == (n, n, max(ne, 1), nv), '{}: result of shape {}', what, o.shape)
            for i in range(nv):
                for j in range(max(ne, 1)):
                    check_o(o[:, :, j, i], src[i], dst[i][j], 1e-7, '{}: source {} target {}'.format(what, i, j))
        # every pair with a zero vector is rejected
        for i in range(nv):
            z = sm.copy()
            z[:, i] = 0.
            expect_error(lambda: ml_orth_transl(z, da), 'src_zero', 'zero source {}'.format(i))
            for j in range(max(ne, 1)):
                z = da.copy()
                if ne == 0:
                    z[:, i] = 0.
                else:
                    z[:, i, j] = 0.
                expect_error(lambda: ml_orth_transl(sm, z), 'dst_zero', 'zero target {} {}'.format(i, j))
    rec.outcome(case)


def form_cases(tier):
    for n in (1, 2, 3):
        for i, s in enumerate(ora.dirs(n, (0, 1, -1))):
            yield [n, s]


def run_form(case, rec):
    n, s = case
    for d in ora.dirs(n, (0, 1, -1))[::2]:
        for ks, a in forms(s):
            for kd, b in forms(d):
                for name, f in BASIC:
                    if name == 'orth_transl_haus' and 'complex0' in (ks, kd):
                        continue
                    for x, y in ((a, b), (a.reshape(-1, 1), b.reshape(-1, 1))):
                        check_o(f(x, y), s, d, 1e-7, '{} of {} {} to {} {}'.format(name, ks, s, kd, d))
    z = np.zeros((n,))
    for name, f in BASIC:
        if name != 'orth_transl_haus':
            for zz in (z, z.reshape(-1, 1), z.astype(int)):
                expect_error(lambda: f(zz, arr(s)), 'src_zero', '{} of a zero source'.format(name))
                expect_error(lambda: f(arr(s), zz), 'dst_zero', '{} of a zero target'.format(name))
    for x in (1j, 0.5 + 0.1j):
        zc = arr(s).astype(complex) * (1 + 0j)
        zc[0] += x
        for f in (orth_transl, orth_transl_qr):
            expect_error(lambda: f(zc, arr(s)), 'inp_mat', 'complex source')
            expect_error(lambda: f(arr(s), zc), 'inp_mat', 'complex target')
    if n > 1:
        for f in (lambda x, y: orth_transl_max_dir(x, y, arr(s), arr(s)), lambda x, y: orth_transl_max_tr(x, y, np.eye(n))):
            expect_error(lambda: f(z, arr(s)), '', 'zero source')
            expect_error(lambda: f(arr(s), z), '', 'zero target')
    rec.outcome(n)


# -- auxiliary vectors ----------------------------------------------------------------------
def aux_cases(tier):
    for n in (1, 2, 3, 4):
        v = ora.dirs(n, (0, 1, -1))
        if n == 3 and tier == 'quick':
            v = v[::2]
        if n == 4:
            v = v[::9 if tier == 'quick' else 3]
        for s in v:
            yield [n, s]


def perp(m, s):
    u = unit(s)
    m = arr(m)
    return m - u * (u @ m)


def run_aux(case, rec):
    n, s = case
    ds = ora.dirs(n, (0, 1, -1))
    ms = ora.vecs(n, (0, 1, -2))
    if n == 3:
        ds, ms = ds[::2], ms[::3]
    if n == 4:
        ds, ms = ds[::7], ms[::11]
    for d in ds:
        for sm in ms:
            for dm in ms:
                what = 'orth_transl_max_dir: {} to {}, {} to {}'.format(s, d, sm, dm)
                args = [arr(x) for x in (s, d, sm, dm)]
                o = check_o(orth_transl_max_dir(*args), s, d, 1e-7, what)
                expect(all(np.array_equal(x, arr(y)) for x, y in zip(args, (s, d, sm, dm))), '{}: arguments changed', what)
                p, q = perp(sm, s), perp(dm, d)
                if np.linalg.norm(p) > 1e-9 and np.linalg.norm(q) > 1e-9 and n > 1:
                    r = o @ unit(p)
                    expect(min(np.max(np.abs(r - unit(q))), np.max(np.abs(r + unit(q)))) <= 1e-7, '{}: the component {} goes to {} instead of {}', what, p, r, unit(q))
                    rec.outcome((n, 'both'))
                else:
                    rec.outcome((n, 'degenerate'))


def tr_cases(tier):
    return list(aux_cases(tier))


def mats(n):
    if n == 1:
        return [[[x]] for x in (0, 1, -2)]
    if n == 2:
        return [[list(v[:2]), list(v[2:])] for v in itertools.product((0, 1, -2), repeat=4)]
    out = [ora.eye(n), ora.mscal(-1, ora.eye(n)), ora.diag([0] * n), ora.diag(list(range(1, n + 1))), ora.diag([(-1) ** i * (i + 1) for i in range(n)]), ora.outer([1] * n, list(range(n)))]
    for k in range(1, 9):
        out.append([[((i * 3 + j * 5 + i * j * k + k) % 7) - 3 for j in range(n)] for i in range(n)])
    return out


def run_tr(case, rec):
    n, s = case
    ds = ora.dirs(n, (0, 1, -1))
    if n == 4:
        ds = ds[::7]
    u = unit(s)
    ps = np.eye(n) - np.outer(u, u)
    for d in ds:
        w = unit(d)
        pd = np.eye(n) - np.outer(w, w)
        for m in mats(n):
            what = 'orth_transl_max_tr: {} to {} with {}'.format(s, d, m)
            a = arr(m)
            o = check_o(orth_transl_max_tr(arr(s), arr(d), a), s, d, 1e-7, what)
            expect(np.array_equal(a, arr(m)), '{}: arguments changed', what)
            best = float(u @ a @ w) + float(np.sum(np.linalg.svd(ps @ a @ pd, compute_uv=False)))
            got = float(np.trace(o @ a))
            expect(abs(got - best) <= 1e-7 * (1 + abs(best)), '{}: trace {} of the product with {}, the largest one is {}', what, got, o.tolist(), best)
        rec.outcome((n, ora.dot(s, d) > 0, ora.dot(s, d) < 0))


# -- all batches over small alphabets ---------------------------------------------------------
SRC = {2: [[1, 0], [3, 4], [1, -2]], 3: [[1, 0, 0], [1, 2, 2], [0, -1, 1]]}
DST = {2: [[0, 1], [-1, 2]], 3: [[0, 1, 0], [2, -1, 2]]}


def small_batch_cases(tier):
    for n in (2, 3):
        for nv, ne in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (((3, 2), (1, 4)) if tier != 'quick' else ()):
            for src in itertools.product(range(3), repeat=nv):
                for dst in itertools.product(range(2), repeat=nv * ne):
                    yield [n, nv, ne, list(src), list(dst)]


def run_small_batch(case, rec):
    n, nv, ne, src, dst = case
    sm = arr(ora.T([SRC[n][i] for i in src]))
    da = np.zeros((n, nv, ne))
    for k, d in enumerate(dst):
        da[:, k // ne, k % ne] = DST[n][d]
    o = ml_orth_transl(sm, da)
    expect(np.shape(o) == (n, n, ne, nv), 'batch {}: result of shape {}', case, np.shape(o))
    for i in range(nv):
        for j in range(ne):
            check_o(o[:, :, j, i], SRC[n][src[i]], DST[n][dst[i * ne + j]], 1e-7, 'batch {}: pair {} {}'.format(case, i, j))
    rec.outcome((nv, ne))


CHECK = Check('C22', 'exploration',
              'all pairs of vectors over {-1,0,1}^n, n up to 4, and over larger alphabets, scaled, nearly parallel ones at distances 1e-18..1e-1, all methods; all auxiliary vectors '
              'and matrices over small alphabets; all batch sizes; non-trivial: dimension at least 2',
              generic('C22') +
              [Stage('pairs', pair_cases, run_pair, nontrivial=lambda c: abs(c[0]) > 1, setup=reset),
               Stage('small batches', small_batch_cases, run_small_batch, setup=reset),
               Stage('nearly parallel', near_cases, run_near, setup=reset),
               Stage('larger dimensions', big_cases, run_big, setup=reset),
               Stage('batches', batch_cases, run_batch, setup=reset),
               Stage('forms', form_cases, run_form, setup=reset),
               Stage('auxiliary vectors', aux_cases, run_aux, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('maximal trace', tr_cases, run_tr, nontrivial=lambda c: c[0] > 1, setup=reset)])
