"""C25: formulas evaluated at time points, slicewise functions, renaming and inspecting variables."""
import itertools
import math

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import close, close_flat, expect, expect_error, reset
from ellipy.gras.gen.gen import MatVector
from ellipy.gras.sym.sym import is_dependent, var_replace

F = {'t': lambda t: t, '1': lambda t: 1., '0': lambda t: 0., '-2.5': lambda t: -2.5, 't*t': lambda t: t * t, 'sin(t)': math.sin, '2*cos(t)+1': lambda t: 2 * math.cos(t) + 1,
     't**3-t': lambda t: t ** 3 - t, 'exp(-t)': lambda t: math.exp(-t), 'pi': lambda t: math.pi, 'sqrt(2)': lambda t: math.sqrt(2), '(t+1)*(t-2)': lambda t: (t + 1) * (t - 2),
     't/4': lambda t: t / 4, '3*t-t*2': lambda t: t, '-t': lambda t: -t, '7': lambda t: 7., 'abs(t)': abs}
NAMES = list(F)
SHORT = ['t', '-2.5', 'sin(t)', '7']
TS = [[0.], [2.], [1., 2.], [-1.5, 0.], [0., 1., 3.], [3., 0.5, -2.], [2., 2.]]


def tforms(ts):
    yield np.array(ts)
    yield np.array(ts).reshape(-1, 1)
    yield np.array([ts])
    if all(float(x).is_integer() for x in ts):
        yield np.array(ts).astype(int)
    if len(ts) == 1:
        yield ts[0]
        yield np.float64(ts[0])
        if float(ts[0]).is_integer():
            yield int(ts[0])


def want(rows, ts):
    return np.array([[[F[x](t) for t in ts] for x in row] for row in rows], dtype=float)


def texts(rows):
    """The ways of writing the matrix as one expression."""
    r = ['[' + ', '.join(row) + ']' for row in rows]
    yield '[' + ', '.join(r) + ']'
    yield ', '.join(r)
    yield '[' + ','.join(r) + ']'
    if len(rows) == 1:
        yield ', '.join(rows[0])
        yield '[' + ','.join(rows[0]) + ']'


def cases_mat(tier):
    for r, c in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)) + (((2, 3), (3, 2), (3, 3)) if tier != 'quick' else ((2, 3),)):
        al = NAMES if r * c <= 2 else SHORT if r * c < 6 else SHORT[:2]
        for first in al:
            yield [r, c, first, al]


def run_mat(case, rec):
    r, c, first, al = case
    for rest in itertools.product(al, repeat=r * c - 1):
        v = [first] + list(rest)
        rows = [v[i * c:(i + 1) * c] for i in range(r)]
        few = r * c > 2 or len(set(v)) > 1
        for ts in TS:
            w = want(rows, ts)
            for i, t in enumerate(tforms(ts)):
                keep = np.array(t, copy=True)
                what = '{} at {!r}'.format(rows, t)
                if not few or i == len(v[-1]) % 3 or i > 3:
                    for x in texts(rows):
                        close(MatVector.from_expression(x, t), w, 1e-12, 'expression {!r}: {}'.format(x, what))
                if i == 0 or not few:
                    close(MatVector.from_formula_mat(np.array(rows), t), w, 1e-12, 'matrix of formulas: ' + what)
                    close(MatVector.from_formula_mat(np.array(rows, dtype=object), t), w, 1e-12, 'matrix of formulas: ' + what)
                    if c == 1:
                        close(MatVector.from_formula_mat(np.array(v), t), w, 1e-12, 'vector of formulas: ' + what)
                    close(MatVector.from_func(lambda s: np.array([[F[x](s) for x in row] for row in rows]), t), w, 1e-12, 'function: ' + what)
                    if c == 1:
                        close(MatVector.from_func(lambda s: np.array([F[x](s) for x in v]), t), w, 1e-12, 'function with values in vectors: ' + what)
                    if r * c == 1:
                        close(MatVector.from_func(F[first], t), w, 1e-12, 'function with scalar values: ' + what)
                        close(MatVector.from_func(lambda s: np.float64(F[first](s)), t), w, 1e-12, 'function with scalar values: ' + what)
                expect(np.array_equal(keep, t) and np.shape(keep) == np.shape(t), '{}: the times changed', what)
    rec.outcome((r, c))


G = {'(t+4)**(-2)': lambda t: (t + 4.) ** (-2), '2**(-t-1)': lambda t: 2. ** (-t - 1), 't**7': lambda t: float(t) ** 7, 't**4*t**4': lambda t: float(t) ** 8,
     't/7': lambda t: t / 7., '1/(t+4)': lambda t: 1. / (t + 4), 't-t': lambda t: 0., 't%3': lambda t: t % 3., '-t**2': lambda t: -float(t) ** 2,
     '1e-3*t': lambda t: 1e-3 * t, 't*0.1': lambda t: 0.1 * t, 't//2': lambda t: t // 2.}
GT = [[0], [1], [3], [1000], [70000], [1, 2, 3], [5, 1000, 0], [200, 100], [-3, 3]]
KINDS = ['int64', 'int32', 'int16', 'uint8', 'float64', 'float32', 'bool']


def cases_kind(tier):
    for f in G:
        for kind in KINDS:
            yield [f, kind]


def run_kind(case, rec):
    """Times of every numeric type are the numbers they stand for."""
    f, kind = case
    for ts in GT:
        v = np.array(ts).astype(kind)
        if v.tolist() != ts:
            continue
        w = np.array([[[G[f](float(t)) for t in ts]]])
        sc = max(1e-300, float(np.max(np.abs(w))))
        for t in [v, v.reshape(-1, 1)] + ([v[0], v[0].item()] if len(ts) == 1 and kind != 'bool' else []) + [v[:, None].T]:
            for x in ('[[{}]]'.format(f), f):
                close(MatVector.from_expression(x, t), w, 1e-12, '{} at {!r}'.format(x, t), sc)
            close(MatVector.from_formula_mat(np.array([[f, 't']]), t), np.concatenate((w, np.array([[ts]], dtype=float)), axis=1), 1e-12, '{} at {!r}'.format(f, t),
                  max(sc, 1e5))
            close(MatVector.from_formula_mat(np.array([[f]]), t), w, 1e-12, '{} at {!r}'.format(f, t), sc)
            close(MatVector.from_func(lambda s: np.array([[G[f](s)]]), t), w, 1e-12, 'function {} at {!r}'.format(f, t), sc)
            close(MatVector.from_func(lambda s: np.array([[s ** 2, s / 2]]), t)[0, 1], [x / 2. for x in ts], 1e-15, 'half of {!r}'.format(t))
    rec.outcome(kind)


def cases_eval(tier):
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            for t in (0, 1, 2, 3):
                yield [r, c, t]


def run_eval(case, rec):
    r, c, t = case
    n = max(t, 1)
    for seed in range(4):
        a = np.array([[[float((7 * i + 5 * j + 3 * k + seed * (i + j * k)) % 11 - 5) for k in range(n)] for j in range(c)] for i in range(r)])
        for kind in (float, int):
            b = a.astype(kind)
            x = b if t else b[:, :, 0]
            for y in (x, np.asfortranarray(x)):
                keep = y.copy()
                for name, f, g in (('sum', np.sum, lambda m: sum(map(sum, m))), ('a third of the first', lambda m: m[0, 0] / 3., lambda m: m[0][0] / 3.),
                                   ('maximum', lambda m: np.max(m), lambda m: max(map(max, m)))):
                    close(MatVector.eval_func(f, y), [g(a[:, :, k].tolist()) for k in range(n)], 1e-14, '{} of {}'.format(name, x.tolist()))
                    close(MatVector.eval_func(f, y, True, False), [g(a[:, :, k].tolist()) for k in range(n)], 1e-14, '{} of {}'.format(name, x.tolist()))
                for name, f in (('half', lambda m: m / 2.), ('mirror', lambda m: m[::-1, ::-1] + 0.25), ('copy', lambda m: m)):
                    r0 = MatVector.eval_func(f, y, True, True)
                    close(r0, np.dstack([f(a[:, :, k]) for k in range(n)]), 1e-14, '{} of {}'.format(name, x.tolist()))
                    r0 = MatVector.eval_func(f, y, False)
                    expect(isinstance(r0, list) and len(r0) == n, '{} of {}: {!r}', name, x.tolist(), r0)
                    for k in range(n):
                        close(r0[k], f(a[:, :, k]), 1e-14, '{} of slice {}'.format(name, k))
                r0 = MatVector.eval_func(lambda m: m[0], y, False)
                expect(len(r0) == n, 'rows of {}: {!r}', x.tolist(), r0)
                for k in range(n):
                    close(r0[k], a[0, :, k], 0., 'row of slice {}'.format(k))
                expect(np.array_equal(y, keep), 'the array changed')
    rec.outcome(case)


# -- renaming ------------------------------------------------------------------------------------
def is_word(ch):
    return ch.isalnum() or ch == '_'


def words(s):
    out = []
    for ch in s:
        if out and is_word(ch) and is_word(out[-1][-1]):
            out[-1] += ch
        else:
            out.append(ch)
    return out


def rename(s, a, b):
    return ''.join('(' + b + ')' if w == a else w for w in words(s.replace(' ', '')))


TOK = ['t', 'tt', 't2', '_t', 'a', 'k', '+', '(', ')', '^', ' ', '0.5', '2', ',']
NAMES2 = [('t', '15 - t'), ('tt', 't'), ('a', 'a'), ('k', 't+tt*k'), ('x', 't'), ('t2', '0.01-t2'), ('t', '')]


def cases_ren(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for first in TOK:
            yield [n, first]


def run_ren(case, rec):
    n, first = case
    ss = [first + ''.join(x) for x in itertools.product(TOK, repeat=n - 1)]
    for a, b in NAMES2:
        w = [rename(s, a, b) for s in ss]
        for shp in ((len(ss),), (len(ss), 1), (1, len(ss)), (len(ss) // 2, 2)):
            if int(np.prod(shp)) != len(ss):
                continue
            for kind in (None, object):
                m = np.array(ss, dtype=kind).reshape(shp)
                keep = m.copy()
                r = var_replace(m, a, b)
                expect(np.array_equal(m, keep), 'the matrix changed')
                expect(np.shape(r) == shp, 'replacing {} with {}: shape {} instead of {}', a, b, np.shape(r), shp)
                for s, x, y in zip(ss, np.ravel(r).tolist(), w):
                    expect(x == y, 'replacing {!r} with {!r} in {!r}: {!r} instead of {!r}', a, b, s, x, y)
        for s in ss[:60]:
            r = var_replace(np.array([[s]]), a, b)
            expect(np.shape(r) == (1, 1) and r[0, 0] == rename(s, a, b), 'replacing {!r} with {!r} in {!r}: {!r}', a, b, s, r)
    rec.outcome(n)


def cases_num(tier):
    return list(range(6))


NUM = [0, 1, -5, 150, 10 ** 12, 0.5, -0.25, 1.25, 3.0, -17.0, 0.1, 1.324, 1e-5, -1e-10, 123456.789, 1e20, 2 / 3., -100.45, 1e-3]


def run_num(i, rec):
    import re
    for x in NUM:
        for y in [x, -x]:
            ms = [np.array([[y]]), np.array([y]), np.array([['t', y], [y, 'x']], dtype=object), np.array([[y, 't*2']], dtype=object), np.array([[y, y, y]])]
            if i < len(ms):
                m = ms[i]
                r = var_replace(m, 't', 's')
                expect(np.shape(r) == m.shape, 'numbers: shape {}', np.shape(r))
                for a, b in zip(m.ravel().tolist(), np.ravel(r).tolist()):
                    if isinstance(a, str):
                        expect(b == rename(a, 't', 's'), '{!r} beside the number {} becomes {!r}', a, y, b)
                    elif isinstance(a, int):
                        expect(b == str(a), 'number {} becomes {!r}', a, b)
                    else:
                        expect(isinstance(b, str) and re.match(r'^-?\d+\.?\d*$', b) is not None and abs(float(b) - a) <= 1e-15 * max(1., abs(a)), 'number {!r} becomes {!r}', a, b)
    if i == 5:
        for e in (np.array([[]]), np.zeros((0, 2)), np.array([], dtype=object)):
            expect_error(lambda: var_replace(e, 't', 's'), 'm_mat', 'an empty matrix')
        m = np.array([['t']])
        for bad in (1, None, 2.5, ['t'], b't'):
            expect_error(lambda: var_replace(m, bad, 's'), 'from_var_name', 'variable {!r}'.format(bad))
            expect_error(lambda: var_replace(m, 't', bad), 'to_var_name', 'replacement {!r}'.format(bad))
        for t in (1., np.array([1., 2.])):
            expect_error(lambda: MatVector.from_expression('', t), 'wrongInput', 'an empty formula')
            expect_error(lambda: MatVector.from_formula_mat(np.array([['t', '']]), t), 'wrongInput', 'an empty formula in a matrix')
            expect_error(lambda: MatVector.from_formula_mat(np.array(['', '1']), t), 'wrongInput', 'an empty formula in a vector')
    rec.outcome(i)


# -- dependence ----------------------------------------------------------------------------------
def cases_dep(tier):
    return [[n, f] for n in range(1, 5) for f in TOK] + ([[5, f] for f in TOK] if tier != 'quick' else [])


def run_dep(case, rec):
    n, first = case
    for rest in itertools.product(TOK, repeat=n - 1):
        s = first + ''.join(rest)
        for letter, disc in (('t', False), ('k', True)):
            w = letter in words(s)
            m = np.array([[s]])
            args = (m, True) if disc else (m,)
            r = is_dependent(*args)
            expect(bool(r) == w and isinstance(r, (bool, np.bool_)), '{!r} depends on {}: {!r}', s, letter, r)
            rec.outcome(w)
        expect(bool(is_dependent(m, False)) == ('t' in words(s)), '{!r} depends on t', s)


def cases_depm(tier):
    return [[r, c] for r in (1, 2, 3) for c in (0, 1, 2, 3)]


def run_depm(case, rec):
    r, c = case
    shp = (r, max(c, 1)) if c else (r,)
    m = int(np.prod(shp))
    fill = [['1', 'x'], [5, 'kt'], ['t2', 0.5], ['tk', 'cos(tt)'], [7, -1.5], ['k_t', '']]
    for f in fill:
        for s in ('t', 'k', 'sin(t)', 'k+1', '2*k', 't*k', 'x', '(t)'):
            for mask in itertools.product((0, 1), repeat=m) if m <= 4 else [tuple(int(i == p) for i in range(m)) for p in range(m)] + [(0,) * m, (1,) * m]:
                v = [s if b else f[i % 2] for i, b in enumerate(mask)]
                a = np.empty((m,), dtype=object)
                a[:] = v
                for x in (a.reshape(shp), np.array([str(y) for y in v]).reshape(shp)):
                    for letter, disc in (('t', False), ('k', True)):
                        w = any(letter in words(str(y)) for y in v)
                        expect(bool(is_dependent(x, disc)) == w, '{} depends on {}: {}', x.tolist(), letter, not w)
    for a in (np.zeros(shp), np.ones(shp, dtype=int), np.full(shp, 1e-10)):
        for disc in (False, True):
            expect(not is_dependent(a, disc), 'numbers {} depend on a variable', a)
    rec.outcome(case)


CHECK = Check('C25', 'exploration',
              'all placements of formulas from a menu in matrices up to 2x3 (3x3 thorough) in all ways of writing x times in all forms; all sizes and kinds of slicewise functions; '
              'all sequences of up to 4 (thorough: 5) tokens for renaming and dependence, in matrices of all small shapes; non-trivial: more than one entry or token',
              generic('C25') +
              [Stage('formulas', cases_mat, run_mat, nontrivial=lambda c: c[0] * c[1] > 1, setup=reset),
               Stage('types of times', cases_kind, run_kind, setup=reset),
               Stage('slicewise', cases_eval, run_eval, nontrivial=lambda c: c[2] > 1, setup=reset),
               Stage('renaming', cases_ren, run_ren, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('numbers', cases_num, run_num, setup=reset),
               Stage('dependence', cases_dep, run_dep, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('dependence of matrices', cases_depm, run_depm, setup=reset)])
