"""C19: tolerant comparison of arrays and of dictionaries."""
import copy
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import expect, expect_error, reset
from ellipy.gen.common.common import abs_rel_compare
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec

NAN, INF = float('nan'), float('inf')
ALPHA = [0., 1., -1., 1.5, 3., 5., 1 + 2. ** -10, -1e-300, NAN, INF, -INF]
ATOL = [0., 0.5, 2. ** -10, 4.]
RTOL = [None, 0., 0.5, 2. ** -9]


def special(x):
    return 'n' if x != x else '+' if x == INF else '-' if x == -INF else ''


def mag(x):
    return abs(x) if isinstance(x, complex) else abs(Fr(x))


def ref(a, b, at, rt):
    """-> verdict, max abs diff (None if special values disagree), max rel diff (None if not needed), the largest difference at it."""
    ca = [(x.real if isinstance(x, complex) else x) for x in a]
    cb = [(x.real if isinstance(x, complex) else x) for x in b]
    if [special(x) for x in ca] != [special(x) for x in cb]:
        return False, None, None, None
    fin = [(x, y) for x, y, z in zip(a, b, ca) if not special(z)]
    if not a:
        return True, None, None, None
    d = [mag(x - y) if isinstance(x, complex) else abs(Fr(x) - Fr(y)) for x, y in fin]
    amax = max(d, default=Fr(0))
    amax = max(amax, Fr(0))
    if rt is None:
        return amax <= at, amax, None, None
    rel = [(2 * e / (mag(x) + mag(y)), e) for e, (x, y) in zip(d, fin) if e > at and mag(x) + mag(y) > at]
    if not rel:
        return amax <= at, amax, None, None
    r = max(q for q, _ in rel)
    return r <= rt, amax, r, [e for q, e in rel if q >= r * (1 - Fr(1, 10 ** 15))]


def num(x):
    x = np.asarray(x)
    return None if x.size == 0 else float(x.ravel()[0])


def check_arrays(a, b, at, rt, fa, fb, what, tol=1e-15):
    eq, ad, rd, ed = ref(a, b, at, rt)
    r = abs_rel_compare(fa, fb, at, rt, np.abs)
    expect(len(r) == 6, '{}: {} results', what, len(r))
    expect(bool(np.ravel(r[0])[0]) == eq and np.size(r[0]) == 1, '{}: equal is {}', what, r[0])
    expect(isinstance(r[5], str) and (r[5] == '') == eq, '{}: report {!r}', what, r[5])
    if ad is None:
        if a:
            expect(math.isnan(num(r[1])), '{}: absolute difference {}', what, r[1])
        else:
            expect(num(r[1]) is None, '{}: absolute difference {}', what, r[1])
        return
    expect(abs(num(r[1]) - float(ad)) <= 1e-15 * float(ad), '{}: absolute difference {}', what, r[1])
    expect(bool(np.ravel(r[2])[0]) == (rd is not None), '{}: relative difference used: {}', what, r[2])
    if rd is None:
        expect(num(r[3]) is None and num(r[4]) is None, '{}: relative difference {}', what, r[3])
    else:
        expect(abs(num(r[3]) - float(rd)) <= tol * float(rd) and any(abs(num(r[4]) - float(e)) <= tol * float(e) for e in ed), '{}: relative differences {} {}', what, r[3], r[4])


def arr_cases(tier):
    for x in range(len(ALPHA)):
        for y in range(len(ALPHA)):
            yield [x, y]


def run_arr(case, rec):
    """All pairs of two-element arrays with the given first elements (and the one-element ones)."""
    x, y = ALPHA[case[0]], ALPHA[case[1]]
    for at in ATOL:
        for rt in RTOL:
            check_arrays([x], [y], at, rt, np.array([x]), np.array([y]), '[{}], [{}], tolerances {} {}'.format(x, y, at, rt))
            for u in ALPHA:
                for v in ALPHA:
                    check_arrays([x, u], [y, v], at, rt, np.array([x, u]), np.array([y, v]), '{}, {}, tolerances {} {}'.format([x, u], [y, v], at, rt))
    rec.outcome((special(x), special(y)))


SHAPES = [(3,), (1, 3), (3, 1), (2, 2), (4,), (2, 1, 2), (2, 3), (6,), ()]


def shape_cases(tier):
    for i, s in enumerate(SHAPES):
        for j, t in enumerate(SHAPES):
            yield [i, j]


def run_shape(case, rec):
    s, t = SHAPES[case[0]], SHAPES[case[1]]
    m = int(np.prod(s))
    if s != t:
        expect_error(lambda: abs_rel_compare(np.ones(s), np.ones(t), 0., None, np.abs), 'wrongArgs', 'sizes {} and {}'.format(s, t))
        rec.outcome('rejected')
        return
    for p in range(m):
        for dv in (0.5, -3., 2. ** -10, NAN, INF):
            for kind in (np.float64, np.complex128, np.float32):
                for at, rt in itertools.product((0., 1., 2. ** -9), (None, 0.25, 2. ** -12)):
                    a = [float(2 ** i) for i in range(m)]
                    b = list(a)
                    b[p] += dv
                    if kind == np.complex128:
                        a = [complex(z, 1) for z in a]
                        b = [complex(z, 1) for z in b]
                        if dv == INF:
                            continue
                        if dv == dv:
                            b[p] = a[p] + 1j * dv
                    for q in range(2):
                        check_arrays(a, b, at, rt, np.array(a, dtype=kind).reshape(s), np.array(b, dtype=kind).reshape(s), 'sizes {}, {} {} tolerances {} {}'.format(s, a, b, at, rt), 1e-6 if kind == np.float32 else 1e-15)
                        a, b = b, a
    rec.outcome(m)


INTS = {'int8': (-128, -1, 0, 1, 127), 'uint8': (0, 1, 2, 254, 255), 'int64': (-2 ** 62, -1, 0, 1, 2 ** 53, 2 ** 53 + 1), 'int16': (-32768, 0, 32767),
        'uint16': (0, 1, 65535), 'uint32': (0, 1, 2 ** 32 - 1), 'int32': (-2 ** 31, 0, 2 ** 31 - 1), 'uint64': (0, 1, 2, 1000), 'bool': (0, 1)}


def int_cases(tier):
    return list(INTS)


def run_int(k, rec):
    for a in itertools.product(INTS[k], repeat=2):
        for b in itertools.product(INTS[k], repeat=2):
            for at, rt in ((0., None), (1., None), (3., None), (200., None), (0., 1.), (1., 0.125)):
                check_arrays(list(a), list(b), at, rt, np.array(a, dtype=k), np.array(b, dtype=k), '{} {} of type {} tolerances {} {}'.format(a, b, k, at, rt))
    rec.outcome(k)


def nancomplex_cases(tier):
    return [0]


def run_nancomplex(case, rec):
    vals = [1 + 1j, 1 + 5j, 2 - 1j, 0j, complex(NAN, 0)]
    for a in itertools.product(vals, repeat=2):
        for b in itertools.product(vals, repeat=2):
            for at, rt in ((0., None), (3., None), (0., 0.5)):
                check_arrays(list(a), list(b), at, rt, np.array(a), np.array(b), '{} {} tolerances {} {}'.format(a, b, at, rt))
    check_arrays([], [], 0., None, np.zeros((0,)), np.zeros((0,)), 'empty arrays')
    check_arrays([], [], 0., 1., np.zeros((2, 0)), np.zeros((2, 0)), 'empty arrays')
    rec.outcome(0)


def bad_cases(tier):
    for i in range(12):
        yield i


def run_bad(i, rec):
    a = np.array([1., 2.])
    if i == 0:
        expect_error(lambda: abs_rel_compare(a, np.array(['a', 'b']), 0., None, np.abs), 'wrongArgs', 'text array')
        expect_error(lambda: abs_rel_compare(np.array(['a', 'b']), a, 0., None, np.abs), 'wrongArgs', 'text array')
    elif i == 1:
        for t in (-1., -1e-300, None, NAN, np.array([1., 2.]), 1j):
            expect_error(lambda: abs_rel_compare(a, a, t, None, np.abs), 'wrongAbsTol', 'absolute tolerance {}'.format(t))
    elif i == 2:
        for t in (-1., -1e-300, NAN, np.array([1., 2.]), 1j):
            expect_error(lambda: abs_rel_compare(a, a, 0., t, np.abs), 'wrongRelTol', 'relative tolerance {}'.format(t))
    elif i == 3:
        for f in (None, 5, 'abs'):
            expect_error(lambda: abs_rel_compare(a, a, 0., None, f), 'wrongNormOp', 'norm {}'.format(f))
    elif i < 8:
        x = [5, 'abc', None, [1, 2]][i - 4]
        expect_error(lambda: dict_compare(x, {'a': 1}), 'wrongInput', 'comparing {!r}'.format(x))
        expect_error(lambda: dict_compare({'a': 1}, x), 'wrongInput', 'comparing {!r}'.format(x))
    elif i == 8:
        expect_error(lambda: dict_compare(np.array([1., 2.]), {'a': 1}), 'wrongInput', 'comparing numbers')
        expect_error(lambda: dict_compare({'a': 1}, np.array([1., 2.])), 'wrongInput', 'comparing numbers')
    elif i == 9:
        for t in (-1., None):
            expect_error(lambda: dict_compare({'a': 1.}, {'a': 1.}, t), 'wrongAbsTol', 'absolute tolerance {}'.format(t))
    elif i == 10:
        expect_error(lambda: dict_compare({'a': 1.}, {'a': 1.}, 0., -1.), 'wrongRelTol', 'negative relative tolerance')
    else:
        o = np.empty((2,), dtype=object)
        o[0], o[1] = {'a': 1}, 5
        p = np.empty((2,), dtype=object)
        p[0], p[1] = {'a': 1}, {'a': 1}
        expect_error(lambda: dict_compare_vec(o, p), 'wrongInput', 'a number among dictionaries')
        expect_error(lambda: dict_compare_vec(p, o), 'wrongInput', 'a number among dictionaries')
    rec.outcome(i)


# -- dictionaries --------------------------------------------------------------------------
def obj(items, shp=None):
    a = np.empty((len(items),), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a if shp is None else a.reshape(shp)


VALUES = [
    1, 2, 1., 1.25, -1., NAN, INF, -INF, True, False, 1 + 0j, 1 + 0.25j, 'x', 'y', '', None, np.float64(1.), np.float64(1.25), np.int64(1), np.int64(2),
    np.array([1., 2.]), np.array([1., 2.25]), np.array([1.25, 2.]), np.array([[1., 2.]]), np.array([1., 2., 3.]), np.array([1, 2]), np.array([1, 3]), np.array([]),
    np.zeros((0, 2)), np.array([1., NAN]), np.array([NAN, 1.]), np.array([1., INF]), np.array([1., -INF]), np.array([True, False]), np.array([True, True]),
    np.array(['a', 'b']), np.array(['a', 'c']), np.array([1., 2 + 1j]), np.array([[1., 2.], [3., 4.]]), np.array([[1., 2.], [3., 4.25]]),
    [], [1], [2], [1, 2], [1, 3], [1., 2.], [1., 2.25], ['a', 'b'], ['a', 'c'], [None], [None, 1], [[1], [2]], [[1], [3]], [[1, 2]], [True], [1, 'a'], [1, [2, [3]]], [1, [2, [4]]],
    {}, {'p': 1}, {'p': 2}, {'q': 1}, {'p': 1, 'q': 2.}, {'p': 1, 'q': 2.25}, {'p': {'r': 1.}}, {'p': {'r': 1.25}}, {'p': {'r': 'x'}}, {'p': {'s': 1.}},
    [{'p': 1}], [{'p': 2}], [{'p': 1}, {'p': 1}], [{'p': 1}, {'p': 2}], [{'p': 1}, 5], [np.array([1., 2.]), 'a'], [np.array([1., 2.25]), 'a'],
    obj([{'p': 1}]), obj([{'p': 2}]), obj([{'p': 1.}, {'q': 2.}]), obj([{'p': 1.}, {'q': 2.25}]), obj([{'p': 1.}, {'q': 2.}], (2, 1)), obj([{'p': 1.}, {'q': 2.}], (1, 2)),
    {'p': [1., {'q': np.array([1., 2.])}]}, {'p': [1., {'q': np.array([1., 2.25])}]}]
TOLS = [(0., None), (0.5, None), (0., 0.125), (0., 0.25), (2. ** -4, 2. ** -5)]


def nums(x):
    return [complex(v) if isinstance(v, (complex, np.complexfloating)) else float(v) for v in np.asarray(x).ravel().tolist()]


def equal(x, y, at, rt):
    if type(x) != type(y):
        return False
    if isinstance(x, dict):
        return set(x) == set(y) and all(equal(x[k], y[k], at, rt) for k in x)
    if isinstance(x, list):
        return len(x) == len(y) and all(equal(a, b, at, rt) for a, b in zip(x, y))
    if x is None or isinstance(x, str):
        return x == y
    a, b = np.asarray(x), np.asarray(y)
    if a.dtype.kind != b.dtype.kind or a.shape != b.shape:
        return False
    if a.dtype.kind == 'O':
        return all(equal(p, q, at, rt) for p, q in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in 'US':
        return a.tolist() == b.tolist()
    return ref(nums(x), nums(y), at, rt)[0]


def check_dicts(x, y, at, rt, keys, what):
    want = equal(x, y, at, rt)
    args = (at,) if rt is None else (at, rt)
    r = dict_compare(x, y, *args)
    expect(isinstance(r, tuple) and len(r) == 2 and np.size(r[0]) == 1, '{}: result {!r}', what, r)
    expect(bool(np.ravel(r[0])[0]) == want, '{}: equal is {} ({!r})', what, r[0], r[1])
    expect(isinstance(r[1], str) and (r[1] == '') == want, '{}: report {!r} for the verdict {}', what, r[1], want)
    if not want:
        for k in keys:
            expect(k in r[1], '{}: report {!r} does not name the key {!r}', what, r[1], k)
    return want


def val_cases(tier):
    for i in range(len(VALUES)):
        yield i


def run_val(i, rec):
    x = VALUES[i]
    for j, y in enumerate(VALUES):
        if i == j:
            y = copy.deepcopy(y)
        for at, rt in TOLS:
            what = '{!r} and {!r}, tolerances {} {}'.format(x, y, at, rt)
            w = check_dicts({'alpha': x}, {'alpha': y}, at, rt, ['alpha'], what)
            rec.outcome(w)
        at, rt = TOLS[(i + j) % len(TOLS)]
        check_dicts({'a1': 1, 'beta': x, 'c1': 'z'}, {'c1': 'z', 'beta': y, 'a1': 1}, at, rt, ['beta'], 'second of three keys: ' + what)
        check_dicts({'gamma': {'a1': 0., 'beta': x}}, {'gamma': {'a1': 0., 'beta': y}}, at, rt, ['gamma', 'beta'], 'nested: ' + what)
        check_dicts({'a1': x, 'beta': x}, {'a1': x, 'beta': y}, at, rt, ['beta'], 'same first key: ' + what)
        if not equal(x, y, at, rt):
            check_dicts({'alpha': x, 'beta': x, 'c1': 0}, {'alpha': y, 'beta': y, 'c1': 0}, at, rt, ['alpha', 'beta'], 'two different keys: ' + what)
    check_dicts({'alpha': x}, {'beta': x}, 1., None, ['alpha', 'beta'], 'different keys')
    check_dicts({'alpha': x}, {'alpha': x, 'beta': x}, 1., None, ['beta'], 'an extra key')
    check_dicts({'alpha': x, 'beta': x}, {'alpha': x}, 1., None, ['beta'], 'a missing key')
    check_dicts({}, {'beta': x}, 1., None, ['beta'], 'an empty dictionary')


D = [{'a': 1.}, {'a': 1.25}, {'b': 1.}, {}, {'a': {'c': 1.}}, {'a': {'c': 1.25}}, {'a': [1, 2]}]
ASH = [(0,), (1,), (1, 1), (2,), (1, 2), (2, 1), (3,), (2, 2)]


def vec_cases(tier):
    for i, s in enumerate(ASH):
        for j, t in enumerate(ASH):
            yield [i, j]


def run_vec(case, rec):
    s, t = ASH[case[0]], ASH[case[1]]
    m, k = int(np.prod(s)), int(np.prod(t))
    if s != t:
        for o in range(4):
            x, y = obj([copy.deepcopy(D[o]) for i in range(m)], s), obj([copy.deepcopy(D[o]) for i in range(k)], t)
            r = dict_compare(x, y)
            expect(not bool(np.ravel(r[0])[0]) and r[1] != '', 'arrays of dictionaries of sizes {} and {}: {!r}', s, t, r)
            r = dict_compare_vec(x, y)
            expect(np.size(r[0]) == 1 and not bool(np.ravel(r[0])[0]) and r[1] != '', 'arrays of dictionaries of sizes {} and {}: {!r}', s, t, r)
        rec.outcome('sizes')
        return
    n = len(D) if m <= 2 else 3
    for pat in itertools.product(range(n), repeat=m):
        for q in itertools.product(range(n), repeat=m) if m < 4 else [pat[1:] + pat[:1], pat[::-1], pat[:3] + (0,), (1,) + pat[1:]]:
            xs, ys = [copy.deepcopy(D[i]) for i in pat], [copy.deepcopy(D[i]) for i in q]
            for at, rt in ((0., None), (0., 0.25)):
                want = [equal(a, b, at, rt) for a, b in zip(xs, ys)]
                x, y = obj(xs, s), obj(ys, s)
                what = 'arrays of size {}: {} and {}'.format(s, xs, ys)
                v, rep = dict_compare_vec(x, y, at, rt)
                expect(np.asarray(v).dtype == bool and np.ravel(v).tolist() == want, '{}: {}', what, v)
                expect((rep == '') == all(want), '{}: report {!r}', what, rep)
                for i, w in enumerate(want):
                    expect(w or '({})'.format(i) in rep, '{}: report {!r} does not mention element {}', what, rep, i)
                e, rep = dict_compare(x, y, at, rt)
                expect(bool(np.ravel(e)[0]) == all(want) and (rep == '') == all(want), '{}: {} {!r}', what, e, rep)
                if len(s) == 1:
                    for xx, yy in ((xs, ys), (xs, y), (x, ys)) + (((xs[0], ys[0]), (xs[0], ys), (x, ys[0])) if m == 1 else ()):
                        e, rep = dict_compare(xx, yy, at, rt)
                        expect(bool(np.ravel(e)[0]) == all(want) and (rep == '') == all(want), 'lists, {}: {} {!r}', what, e, rep)
    rec.outcome(m)


CHECK = Check('C19', 'exploration',
              'all pairs of arrays of one and two entries over an alphabet with NaN and infinities x tolerances, single-entry differences in arrays of all sizes and '
              'types, all pairs of nested values at several places of a dictionary, all patterns of arrays of dictionaries; non-trivial: the two sides differ',
              generic('C19') +
              [Stage('arrays', arr_cases, run_arr, nontrivial=lambda c: c[0] != c[1], setup=reset),
               Stage('sizes', shape_cases, run_shape, setup=reset),
               Stage('integers', int_cases, run_int, setup=reset),
               Stage('complex', nancomplex_cases, run_nancomplex, setup=reset),
               Stage('values', val_cases, run_val, setup=reset),
               Stage('elementwise', vec_cases, run_vec, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
