"""C20: membership lookup and tolerant sorting of rows."""
import itertools

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import expect, expect_error, reset
from ellipy.gen.common.common import is_member
from ellipy.gras.gen.gen import sort_rows_tol

ALPH = {'int': [0, 1, -2, 7], 'float': [0., 0.5, -1e-30, 1e10], 'text': ['a', 'b', 'ab', 'A'], 'bool': [True, False], 'mixed': [0, 1.5, 2, -1]}


def check_member(a, b, av, bv, what):
    f, p = is_member(av, bv)
    want = [x in b for x in a]
    expect(np.shape(f) == (len(a),) and np.asarray(f).dtype == bool and np.asarray(f).tolist() == want, '{}: found {}', what, f)
    pos = [b.index(x) for x in a if x in b]
    expect(np.shape(p) == (len(pos),) and [int(x) for x in p] == pos and all(int(x) == x for x in p), '{}: positions {} instead of {}', what, p, pos)
    if pos:
        got = np.asarray(bv)[np.asarray(p)]
        expect(got.tolist() == [x for x, w in zip(a, want) if w], '{}: positions {} cannot be used as indices', what, p)


def mem_cases(tier):
    for k, al in ALPH.items():
        m = 3 if k != 'bool' else 2
        for n in range(0, 5 if tier == 'quick' else 6):
            for first in (range(m) if n else [-1]):
                yield [k, n, first, 4 if tier == 'quick' else 5]


def run_mem(case, rec):
    k, n, first, top = case
    al = ALPH[k]
    m = 3 if k != 'bool' else 2
    for rest in itertools.product(range(m), repeat=max(n - 1, 0)):
        a = [al[i] for i in ((first,) + rest if n else ())]
        for nb in range(0, top + 1):
            for pb in itertools.product(range(len(al)) if nb < 4 else range(m), repeat=nb):
                b = [al[i] for i in pb]
                if k == 'text' and not (a and b):
                    av, bv = np.array(a, dtype='U2'), np.array(b, dtype='U2')
                else:
                    av, bv = np.array(a), np.array(b)
                check_member(a, b, av, bv, 'looking up {} in {}'.format(a, b))
                if nb == 3 and a and n < 4:
                    check_member(a, b, a, b, 'looking up the list {} in the list {}'.format(a, b))
                    check_member(a, b, tuple(a), bv, 'looking up the tuple {} in {}'.format(a, b))
                    check_member(a, b, av, tuple(b), 'looking up {} in the tuple {}'.format(a, b))
    rec.outcome((k, n))


# -- sorting ----------------------------------------------------------------------------------
def classes(col, tol):
    v = sorted(set(col))
    c, out = 0, {}
    for i, x in enumerate(v):
        if i and x - v[i - 1] > tol:
            c += 1
        out[x] = c
    return [out[x] for x in col]


def check_sort(rows, ncol, m, tol, what):
    keep = m.copy()
    r, p, q = sort_rows_tol(m, tol)
    expect(np.array_equal(m, keep), '{}: the argument changed', what)
    n = len(rows)
    key = list(zip(*[classes([x[j] for x in rows], tol) for j in range(ncol)])) if ncol else [()] * n
    want = sorted(range(n), key=lambda i: key[i])
    expect(np.shape(p) == (n,) and [int(x) for x in p] == want, '{}: permutation {} instead of {}', what, p, want)
    expect(np.shape(r) == (n, ncol) and r.dtype == keep.dtype and r.tolist() == [rows[i] for i in want], '{}: rows {} instead of {}', what, r, [rows[i] for i in want])
    back = [want.index(i) for i in range(n)]
    expect(np.shape(q) == (n,) and [int(x) for x in q] == back, '{}: inverse permutation {} instead of {}', what, q, back)
    if n:
        expect(np.array_equal(keep[p], r) and np.array_equal(r[q], keep), '{}: the permutations cannot be used as indices', what)


SVAL = [0., 1., 1.5, 2., 4.]
TOLS = [0., 0.25, 0.5, 1., 2., 10.]


def sort_cases(tier):
    dims = [(0, 2), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (5, 1), (4, 2), (3, 3)]
    if tier != 'quick':
        dims += [(6, 1), (5, 2), (4, 3), (2, 5)]
    for n, c in dims:
        k = n * c
        size = 5 if k <= 6 else 3 if k <= 9 else 2
        if k == 0:
            yield [n, c, size, []]
        else:
            lead = min(k, 2)
            for pre in itertools.product(range(size), repeat=lead):
                yield [n, c, size, list(pre)]


def run_sort(case, rec):
    n, c, size, pre = case
    al = SVAL if size == 5 else [0., 1., 3.] if size == 3 else [0., 1.]
    for rest in itertools.product(range(size), repeat=n * c - len(pre)):
        v = [al[i] for i in pre + list(rest)]
        rows = [v[i * c:(i + 1) * c] for i in range(n)]
        m = np.array(v).reshape(n, c)
        for tol in TOLS if n * c <= 6 else [0., 1., 2.]:
            check_sort(rows, c, m, tol, 'sorting {} with tolerance {}'.format(rows, tol))
    rec.outcome((n, c))


def scale_cases(tier):
    for e in (-30, -10, 0, 20, 40):
        for off in (0, 1, -3):
            yield [e, off]


def run_scale(case, rec):
    e, off = case
    sc = 2. ** e
    for pat in itertools.product((0, 1, 2, 3, 4.5, 8), repeat=4):
        rows = [[sc * (off + x), sc * pat[(i * 3 + 1) % 4]] for i, x in enumerate(pat)]
        m = np.array(rows)
        for t in (0., 0.75, 1., 1.5, 2.):
            check_sort(rows, 2, m, t * sc, 'sorting {} with tolerance {}'.format(rows, t * sc))
            check_sort(rows, 2, np.asfortranarray(m), t * sc, 'sorting {} with tolerance {}'.format(rows, t * sc))
        if e == 0 or e == 20:
            for k in ([np.int64, np.int32] if all(float(x).is_integer() for r in rows for x in r) else [np.float32]):
                im = m.astype(k)
                for t in (0., 1., 2.):
                    check_sort([[x for x in r] for r in im.tolist()], 2, im, t * sc, 'sorting {} of type {} with tolerance {}'.format(rows, k, t * sc))
    rec.outcome(e)


def long_cases(tier):
    for n in (7, 16, 17, 40, 100, 300):
        for step in range(1, 8 if tier == 'quick' else 20):
            yield [n, step]


def run_long(case, rec):
    """Rows in many orders, with long chains of entries (every chain is one class)."""
    n, step = case
    for t in (0., 0.5, 1.):
        for f in (lambda i: i * step % n, lambda i: -(i * step % n) // 3, lambda i: (i * i * step) % 11, lambda i: (i * step % n) * (2 if i % 5 else 1)):
            rows = [[float(f(i)) / 2, float((i * 7) % 5), float((i * step) % 3) / 2] for i in range(n)]
            check_sort(rows, 3, np.array(rows), t, 'sorting {} rows with tolerance {}'.format(n, t))
    rec.outcome(n)


def wide_cases(tier):
    for n in (1, 2, 3, 17, 33):
        for c in range(4, 10):
            for t in (0., 0.5, 1.):
                yield [n, c, t]


def run_wide(case, rec):
    """Many columns: rows that agree up to some column, in every position."""
    n, c, t = case
    for j in range(c):
        for k in range(j, c):
            for f in (lambda i: n - i, lambda i: i * 5 % 7, lambda i: i // 2, lambda i: (i * i) % 3):
                rows = [[float((x * 3) % 4) / 4 for x in range(c)] for _ in range(n)]
                for i in range(n):
                    rows[i][j] = float(f(i))
                    rows[i][k] = rows[i][k] + float((i * 2) % 3)
                check_sort(rows, c, np.array(rows), t, 'sorting {} rows of {} columns with tolerance {}'.format(n, c, t))
                m = np.arange(n * c).reshape(n, c) * (j + 3) % (k + 5) * 2
                check_sort(m.tolist(), c, m, t, 'sorting {} rows of {} integers with tolerance {}'.format(n, c, t))
    rec.outcome((n, c))


def look_cases(tier):
    for n in (10, 100, 1000):
        for k in ('int', 'float', 'text', 'neg'):
            yield [n, k]


def run_look(case, rec):
    """Long sequences with repetitions in both places."""
    n, k = case
    f = {'int': lambda i: i, 'float': lambda i: i / 8., 'text': lambda i: 's{}'.format(i), 'neg': lambda i: -i * 3}[k]
    for s, m, off in itertools.product((1, 3, 7), (n, n // 2, 5), (0, 2)):
        b = [f((i * s + off) % m) for i in range(n)]
        a = [f((i * i + i * s) % (m + 4)) for i in range(n // 2 + 1)]
        check_member(a, b, np.array(a), np.array(b), 'looking up {} entries among {}'.format(len(a), n))
        check_member(a, b, a, b, 'looking up {} entries among {}'.format(len(a), n))
    rec.outcome(k)


def bad_cases(tier):
    return list(range(8))


def run_bad(i, rec):
    m = np.array([[1., 2.], [0., 1.]])
    if i == 0:
        for t in (-1., -1e-300, -5):
            expect_error(lambda: sort_rows_tol(m, t), 'tol', 'tolerance {}'.format(t))
    elif i == 1:
        expect_error(lambda: sort_rows_tol(np.array([1., 2.]), 0.), 'inp_mat', 'a vector')
    elif i == 2:
        expect_error(lambda: sort_rows_tol(np.ones((2, 2, 2)), 0.), 'inp_mat', 'a three-dimensional array')
    elif i == 3:
        expect_error(lambda: sort_rows_tol(np.array([['a', 'b'], ['c', 'd']]), 0.), 'inp_mat', 'a matrix of text')
    elif i == 4:
        expect_error(lambda: sort_rows_tol(np.array([[None, None]]), 0.), 'inp_mat', 'a matrix of objects')
    elif i == 5:
        expect_error(lambda: sort_rows_tol(np.array(5.), 0.), 'inp_mat', 'a number')
    elif i == 6:
        expect_error(lambda: sort_rows_tol(np.zeros((0,)), 0.), 'inp_mat', 'an empty vector')
    rec.outcome(i)


CHECK = Check('C20', 'exploration',
              'all pairs of sequences of up to 4 elements over small alphabets of numbers and text; all small matrices over an alphabet around the tolerances, scaled and shifted; '
              'long columns with chains; non-trivial: more than one element or row',
              generic('C20') +
              [Stage('lookup', mem_cases, run_mem, nontrivial=lambda c: c[1] > 1, setup=reset),
               Stage('sorting', sort_cases, run_sort, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('scales', scale_cases, run_scale, setup=reset),
               Stage('long columns', long_cases, run_long, setup=reset),
               Stage('many columns', wide_cases, run_wide, setup=reset),
               Stage('long lookups', look_cases, run_look, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
