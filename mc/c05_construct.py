"""C05: exactly the valid parameters are accepted, and what was accepted is what is stored."""
import itertools

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import (Ellipsoid, Hyperplane, arr, expect, expect_error, fail, form, FORM_KINDS, reset, same, forms)


def accept(q, c, what, **kw):
    e = Ellipsoid(arr(q), **kw) if c is None else Ellipsoid(arr(c), arr(q), **kw)
    return check_stored(e, q, c, what)


def check_stored(e, q, c, what):
    n = len(q)
    q = arr(q).reshape(n, n)
    c = np.zeros((n,)) if c is None else arr(c).ravel()
    for gc, gq in (e.double(), e.parameters(), (e.get_center_vec(), e.get_shape_mat())):
        expect(gc.dtype == np.float64 and gq.dtype == np.float64, '{}: parameters are not real double arrays', what)
        same(gc, c, what + ': center')
        same(gq, q, what + ': shape matrix')
    expect(int(Ellipsoid.dimension([e]).flat[0]) == n, '{}: dimension', what)
    expect(bool(Ellipsoid.is_empty([e]).flat[0]) == (n == 0), '{}: emptiness', what)


def reject(fn, what):
    expect_error(fn, 'wrongInput', what)


def shape_cases(tier):
    for q in ora.sym(1, range(-2, 4), (0,)):
        yield q
    for m in itertools.product((-1, 0, 1, 2), repeat=4):
        yield [list(m[:2]), list(m[2:])]
    for q in ora.sym(2, (0, 3, 4, -3), (-4, 3)):
        yield q
    for q in ora.sym(3, (0, 1, 2), (-1, 0, 1)):
        yield q
    if tier != 'quick':
        for q in ora.sym(3, (-1, 0, 1, 3), (-2, -1, 0, 1)):
            yield q
        for m in itertools.product((0, 1), repeat=9):
            yield [list(m[:3]), list(m[3:6]), list(m[6:])]
        for q in ora.sym(4, (0, 1, 2), (-1, 0, 1)):
            yield q


def is_sym(q):
    return all(q[i][j] == q[j][i] for i in range(len(q)) for j in range(len(q)))


def run_shape(q, rec):
    ok = is_sym(q) and ora.is_psd(q)
    n = len(q)
    rec.outcome(ok)
    c = list(range(1, n + 1))
    if ok:
        accept(q, None, 'shape {}'.format(q))
        accept(q, c, 'center {} shape {}'.format(c, q))
    else:
        reject(lambda: Ellipsoid(arr(q)), 'shape {}'.format(q))
        reject(lambda: Ellipsoid(arr(c), arr(q)), 'center {} shape {}'.format(c, q))


def tol_cases(tier):
    tols = [1e-7, 1e-3, 0.5]
    for n in (1, 2, 3, 4):
        for tol in tols:
            for k in (0, 1, 2):
                for f in (-4, -2, -0.5, -0.1, 0, 0.5, 2):
                    yield ['eig', n, tol, k, f]
            for i in range(n):
                for j in range(n):
                    if i != j:
                        for f in (-3, -0.5, 0.5, 0.9, 1.1, 3):
                            yield ['sym', n, tol, [i, j], f]
            for f in (0, 0.1, 0.9, 1.2, 5):
                for pos in range(n):
                    yield ['imag', n, tol, pos, f]


def run_tol(case, rec):
    """Both sides of the object's own tolerance, for eigenvalues, asymmetry and imaginary parts."""
    kind, n, tol, k, f = case
    for via in ('kw', 'config'):
        reset()
        if via == 'config':
            from lib import Properties
            Properties.set_abs_tol(tol)
            kw = {}
        else:
            kw = {'abs_tol': tol}
        if kind == 'eig':
            q, _ = ora.spread(n, [f * ora.fr(tol)] + [2 * i for i in range(1, n)], k)
            q = arr(q)
            q = (q + q.T) / 2
            ok = f >= -1
        elif kind == 'sym':
            q = arr(ora.diag([4 * n] * n)) + 1.
            i, j = k
            q[i, j] += f * tol
            ok = abs(f) <= 1
        else:
            q = arr(ora.diag([2] * n)).astype(complex)
            q[k, k] += 1j * f * tol
            ok = f < 1
        rec.outcome((kind, ok))
        if ok:
            e = Ellipsoid(q, **kw)
            same(e.get_shape_mat(), q.real, 'shape matrix within tolerance')
        else:
            reject(lambda: Ellipsoid(q, **kw), '{} beyond the tolerance {}: {}'.format(kind, tol, q.tolist()))
            reject(lambda: Ellipsoid(np.zeros((n,)), q, **kw), '{} beyond the tolerance {}'.format(kind, tol))


def form_cases(tier):
    for n in (1, 2, 3, 4):
        for kc in FORM_KINDS:
            for kq in FORM_KINDS:
                for lay in ('vec', 'col', 'row'):
                    for pos in (0, n - 1):
                        yield [n, kc, kq, lay, pos]


def run_form(case, rec):
    n, kc, kq, lay, pos = case
    q = [[(n + 2 + i if i == j else (1 if (i + j) % 2 else -1)) for j in range(n)] for i in range(n)]
    c = [0] * n
    c[pos] = -3
    c[0] += 5
    ca = form(c, kc)
    if lay == 'col':
        ca = ca.reshape(n, 1)
    elif lay == 'row':
        ca = ca.reshape(1, n)
    qa = form(q, kq)
    e = Ellipsoid(ca, qa)
    check_stored(e, q, c, 'forms {}'.format(case))
    e = Ellipsoid(qa)
    check_stored(e, q, None, 'form {}'.format(kq))
    h = Hyperplane(ca, 2.5)
    v, s = h.parameters()
    same(v, arr(c), 'normal')
    expect(v.dtype == np.float64 and float(s) == 2.5, 'stored hyperplane')


def bad_cases(tier):
    for n in (1, 2, 3):
        for val in ('nan', 'inf', '-inf'):
            for where in ('center', 'diag', 'off', 'normal', 'shift'):
                for pos in range(n):
                    yield ['value', n, val, where, pos]
        for m in (1, 2, 3, 4):
            if m != n:
                for lay in ('vec', 'col', 'row'):
                    yield ['mismatch', n, m, lay]
        for shp in ([n, n + 1], [n + 1, n], [n, n, 1], [n, n, 2], [n * n]):
            yield ['shape', shp]
        if n > 1:
            yield ['cmat', n]
        for where in ('center', 'shape', 'normal', 'shift', 'shift2', 'shiftc'):
            yield ['type', n, where]


def run_bad(case, rec):
    kind = case[0]
    rec.outcome(kind)
    if kind == 'value':
        _, n, val, where, pos = case
        val = float(val)
        c, q, v = np.ones((n,)), 4 * np.eye(n), np.ones((n,))
        s = 1.
        if where == 'center':
            c[pos] = val
        elif where == 'diag':
            q[pos, pos] = val
        elif where == 'off':
            q[pos, (pos + 1) % n] = q[(pos + 1) % n, pos] = val
        elif where == 'normal':
            v[pos] = val
        else:
            s = val
        if where in ('normal', 'shift'):
            reject(lambda: Hyperplane(v, s), '{} in {}'.format(val, where))
        else:
            reject(lambda: Ellipsoid(c, q), '{} in {}'.format(val, where))
            if where != 'center':
                reject(lambda: Ellipsoid(q), '{} in {}'.format(val, where))
    elif kind == 'mismatch':
        _, n, m, lay = case
        c = np.ones({'vec': (m,), 'col': (m, 1), 'row': (1, m)}[lay])
        reject(lambda: Ellipsoid(c, np.eye(n)), 'center of size {} with a shape of size {}'.format(m, n))
    elif kind == 'shape':
        reject(lambda: Ellipsoid(np.ones(case[1])), 'shape array of size {}'.format(case[1]))
    elif kind == 'cmat':
        n = case[1]
        reject(lambda: Ellipsoid(np.ones((n, n)), np.eye(n)), 'matrix as center')
        reject(lambda: Hyperplane(np.ones((n, n)), 1.), 'matrix as normal')
    else:
        _, n, where = case
        txt = np.array(['a'] * n)
        if where == 'center':
            reject(lambda: Ellipsoid(txt, np.eye(n)), 'text center')
        elif where == 'shape':
            return
        elif where == 'normal':
            reject(lambda: Hyperplane(txt, 1.), 'text normal')
        elif where == 'shift':
            reject(lambda: Hyperplane(np.ones((n,)), 'a'), 'text shift')
        elif where == 'shift2':
            reject(lambda: Hyperplane(np.ones((n,)), np.array([1., 2.])), 'two shifts')
        else:
            reject(lambda: Hyperplane(np.ones((n,)) + 0.1j, 1.), 'complex normal')
            reject(lambda: Hyperplane(np.ones((n,)), 1. + 0.1j), 'complex shift')


def hyp_cases(tier):
    for n in (1, 2, 3, 5):
        for v in ([ora.vecs(n, (-1, 0, 2)) if n < 4 else ora.vecs(n, (0, 1))][0]):
            for s in (-1.5, 0, 2):
                yield [v, s]


def run_hyp(case, rec):
    v, s = case
    for sv in (float(s), np.float64(s), np.array(float(s)), np.array([float(s)]), np.array([[float(s)]]), complex(s, 0)):
        h = Hyperplane(arr(v), sv)
        gv, gs = h.parameters()
        same(gv, arr(v), 'normal')
        expect(float(gs) == float(s) and np.ndim(gs) == 0, 'shift {!r} instead of {!r}', gs, s)
    h = Hyperplane(arr(v))
    expect(float(h.parameters()[1]) == 0., 'default shift')


def empty_cases(tier):
    return ['ell0', 'ell_zero_arrays', 'hyp0']


def run_empty(kind, rec):
    if kind == 'ell0':
        check_stored(Ellipsoid(), [], [], 'default ellipsoid')
    elif kind == 'ell_zero_arrays':
        check_stored(Ellipsoid(np.zeros((0,)), np.zeros((0, 0))), [], [], 'empty arrays')
        check_stored(Ellipsoid(np.zeros((0, 0))), [], [], 'empty array')
    else:
        h = Hyperplane()
        expect(bool(np.all(Hyperplane.is_empty([h]))) and int(Hyperplane.dimension([h])[0]) == 0, 'default hyperplane')


def dims_cases(tier):
    top = 3 if tier == 'quick' else 4
    for nd in (1, 2, 3, 4):
        for shp in itertools.product(range(1, (top if nd < 4 else 2) + 1), repeat=nd):
            if nd > 1 and int(np.prod(shp)) <= 12:
                yield list(shp)


def run_dims(shp, rec):
    """Centers, normals and shape matrices held in arrays of every shape."""
    m = int(np.prod(shp))
    vec = max(shp) == m
    a = np.arange(1., m + 1).reshape(shp)
    for n in range(1, 13):
        if n != m or not vec:
            reject(lambda: Ellipsoid(a, np.eye(n)), 'center in an array of shape {} with a shape of size {}'.format(shp, n))
            reject(lambda: Ellipsoid(a.T, 2 * np.eye(n)), 'center in an array of shape {} with a shape of size {}'.format(shp[::-1], n))
    if vec:
        check_stored(Ellipsoid(a, np.eye(m)), ora.eye(m), list(range(1, m + 1)), 'center in an array of shape {}'.format(shp))
        same(Hyperplane(a, 1.).parameters()[0], np.arange(1., m + 1), 'normal in an array of shape {}'.format(shp))
    else:
        reject(lambda: Hyperplane(a, 1.), 'normal in an array of shape {}'.format(shp))
        reject(lambda: Hyperplane(a, np.ones((1,))), 'normal in an array of shape {}'.format(shp))
    if m > 1:
        reject(lambda: Hyperplane(np.ones((2,)), a), 'shift in an array of shape {}'.format(shp))
    if len(shp) > 2 or shp[0] != shp[1]:
        ones = np.ones(shp)
        reject(lambda: Ellipsoid(ones), 'shape array of size {}'.format(shp))
        for n in (1, 2, 3, 4):
            reject(lambda: Ellipsoid(np.zeros((n,)), ones), 'shape array of size {}'.format(shp))
    rec.outcome(vec)


HUGE = [1.7976931348623157e308, 1e308, -1e308, 1e200, 1e-300, 5e-324, -5e-324, 0., 2. ** 53 + 2, 1e-17]


def huge_cases(tier):
    m = len(HUGE)
    for n in (1, 2, 3):
        for ix in itertools.product(range(m), repeat=n) if n < 3 or tier != 'quick' else [(i, j, (i + j) % m) for i in range(m) for j in range(m)]:
            yield list(ix)


def run_huge(ix, rec):
    """Finite numbers of any magnitude are accepted, also where their sums or products overflow, and stored exactly."""
    v = np.array([HUGE[i] for i in ix])
    n = len(ix)
    for how, a in (('vector', v.copy()), ('column', v.reshape(-1, 1).copy()), ('row', v.reshape(1, -1).copy())):
        check_stored(Ellipsoid(a, np.eye(n)), np.eye(n), v, 'center {} as {}'.format(v.tolist(), how))
        h = Hyperplane(a, v[0])
        same(h.parameters()[0], v, 'normal {}'.format(v.tolist()))
        expect(float(h.parameters()[1]) == v[0], 'shift {!r} instead of {!r}', h.parameters()[1], v[0])
        for k in range(n):
            for bad in (float('nan'), float('inf'), -float('inf')):
                b = a.copy()
                b.flat[k] = bad
                reject(lambda: Ellipsoid(b, np.eye(n)), '{} in center {}'.format(bad, v.tolist()))
                reject(lambda: Hyperplane(b, 1.), '{} in normal {}'.format(bad, v.tolist()))
        reject(lambda: Hyperplane(a, float('inf')), 'infinite shift')
    d = np.diag(np.abs(v))
    check_stored(Ellipsoid(v, d), d, v, 'diagonal shape {}'.format(d.tolist()))
    rec.outcome(n)


CHECK = Check('C05', 'exploration',
              'every integer matrix over the alphabets as shape (exact rational decision of validity), both sides of the '
              'tolerance for eigenvalues/asymmetry/imaginary parts, every argument form, every malformed argument; '
              'every case is non-trivial (it is decided as accept or reject)',
              generic('C05') +
              [Stage('shapes', shape_cases, run_shape, setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('forms', form_cases, run_form, setup=reset),
               Stage('array shapes', dims_cases, run_dims, setup=reset),
               Stage('magnitudes', huge_cases, run_huge, setup=reset),
               Stage('malformed', bad_cases, run_bad, setup=reset),
               Stage('hyperplanes', hyp_cases, run_hyp, setup=reset),
               Stage('empty', empty_cases, run_empty, setup=reset)])
