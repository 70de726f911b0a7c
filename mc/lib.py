"""Shared helpers around the code under test: building inputs in all accepted forms, and comparing results."""
import math

import numpy as np

from core import Violation, expect, fail   # noqa: F401
import ora

from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane

DEFAULTS = {
    'version': '2.1', 'is_verbose': False, 'abs_tol': 1e-6, 'rel_tol': 1e-5, 'n_time_grid_points': 250,
    'ode_solver_name': 'ode45', 'is_ode_norm_control': True, 'is_enabled_ode_solver_options': False,
    'n_plot_2d_points': 200, 'n_plot_3d_points': 200, 'reg_tol': 1e-5}


def reset():
    Properties.init()


def arr(x):
    """float64 array of a nested list of numbers / Fractions."""
    if isinstance(x, np.ndarray):
        return x
    return np.array(ora.fl(x), dtype=np.float64)


def forms(x):
    """The same numeric array in every memory / type form a caller may hold it in."""
    a = arr(x)
    yield 'plain', a.copy()
    if np.all(a == np.round(a)):
        yield 'int', a.astype(np.int64)
    yield 'complex0', a.astype(np.complex128)
    if a.ndim >= 2:
        yield 'fortran', np.asfortranarray(a.copy())
        big = np.zeros((2 * a.shape[0], 2 * a.shape[1]) + a.shape[2:])
        big[::2, ::2] = a
        yield 'strided', big[::2, ::2]
    else:
        big = np.zeros((2 * a.shape[0],))
        big[::2] = a
        yield 'strided', big[::2]
    r = a.copy()
    r.flags.writeable = False
    yield 'readonly', r


def form(x, kind):
    for k, a in forms(x):
        if k == kind:
            return a
    return arr(x)


FORM_KINDS = ['plain', 'int', 'complex0', 'fortran', 'strided', 'readonly']


def ell(shape_mat, center=None, **kw):
    if center is None:
        return Ellipsoid(arr(shape_mat), **kw)
    return Ellipsoid(arr(center), arr(shape_mat), **kw)


def hyp(normal, shift=0., **kw):
    return Hyperplane(arr(normal), float(shift), **kw)


def flat(x):
    return [float(v) for v in np.asarray(x, dtype=np.float64).ravel()]


def maxabs(x):
    x = flat(x)
    return max((abs(v) for v in x), default=0.)


def close(got, want, tol=1e-9, what='result', scale=None):
    """got: whatever the code returned; want: nested list / array.  Shapes must agree."""
    g = np.asarray(got)
    if g.dtype == object:
        fail('{}: object array instead of numbers'.format(what))
    w = np.asarray(ora.fl(want) if isinstance(want, (list, tuple)) else want, dtype=np.float64)
    if g.shape != w.shape:
        fail('{}: shape {} instead of {}'.format(what, g.shape, w.shape))
    close_flat(g, w, tol, what, scale)


def close_flat(got, want, tol=1e-9, what='result', scale=None):
    """Same, the shapes are not compared."""
    g = np.asarray(got)
    if np.iscomplexobj(g):
        if g.size and float(np.max(np.abs(g.imag))) > tol:
            fail('{}: complex result {!r}'.format(what, got))
        g = g.real
    g = flat(g)
    w = [float(v) for v in np.asarray(ora.fl(want) if isinstance(want, (list, tuple)) else want,
                                      dtype=np.float64).ravel()]
    if len(g) != len(w):
        fail('{}: {} values instead of {}'.format(what, len(g), len(w)))
    s = max([1.] + [abs(v) for v in w]) if scale is None else scale
    for i, (a, b) in enumerate(zip(g, w)):
        if not (abs(a - b) <= tol * s):
            if a == b or (a != a and b != b):
                continue
            fail('{}: element {} is {!r}, expected {!r} (tolerance {:g})'.format(what, i, a, b, tol * s))


def same(got, want, what='result'):
    """Bitwise equality of arrays (shape and values, NaN equal to NaN)."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        fail('{}: shape {} instead of {}'.format(what, g.shape, w.shape))
    if not np.array_equal(g, w) and not (np.array_equal(np.isnan(g), np.isnan(w)) and
                                         np.array_equal(g[~np.isnan(g)], w[~np.isnan(w)])):
        fail('{}: {!r} instead of {!r}'.format(what, got, want))


def truth(x):
    """A verdict of a predicate as a plain bool (bool, numpy bool or one-element array)."""
    a = np.asarray(x)
    if a.size != 1 or a.dtype.kind != 'b':
        fail('a single boolean was expected, got {!r}'.format(x))
    return bool(a.ravel()[0])


def expect_error(fn, tag, what=''):
    try:
        r = fn()
    except ValueError as e:
        if isinstance(e, np.linalg.LinAlgError):
            fail('{}: numpy error instead of an input check: {}'.format(what, e))
        if tag and tag.lower() not in str(e).lower():
            fail('{}: error {!r} does not carry the tag {!r}'.format(what, str(e)[:200], tag))
        return str(e)
    except Violation:
        raise
    except Exception as e:
        fail('{}: {} ({}) instead of a ValueError tagged {!r}'.format(what, type(e).__name__, e, tag))
    fail('{}: accepted, result {!r}; an error tagged {!r} was expected'.format(what, r, tag))


def snap_ell(e):
    """Everything observable about one ellipsoid."""
    c, q = e.double()
    one = np.array([e])
    return (tuple(flat(c)), tuple(flat(q)), np.shape(c), np.shape(q),
            float(Ellipsoid.get_abs_tol(one, None).flat[0]), float(Ellipsoid.get_rel_tol(one, None).flat[0]),
            float(Ellipsoid.get_n_plot_2d_points(one).flat[0]), float(Ellipsoid.get_n_plot_3d_points(one).flat[0]))


def snap_hyp(h):
    v, s = h.parameters()
    one = np.array([h])
    return (tuple(flat(v)), float(s), np.shape(v),
            float(Hyperplane.get_abs_tol(one, None).flat[0]), float(Hyperplane.get_rel_tol(one, None).flat[0]))


def snap(o):
    return snap_ell(o) if isinstance(o, Ellipsoid) else snap_hyp(o)


def snap_config():
    d = Properties.get_prop_dict()
    return tuple(sorted((k, repr(v)) for k, v in d.items()))


def obj_array(objs, shp):
    a = np.empty((len(objs),), dtype=object)
    for i, o in enumerate(objs):
        a[i] = o
    return a.reshape(shp)


ARRAY_KINDS = ['bare', 'list', 'tuple', 'nd0', 'nd1', 'nd2row', 'nd2col', 'nd3']


def wrap(o, kind):
    """One object in every container form."""
    if kind == 'bare':
        return o
    if kind == 'list':
        return [o]
    if kind == 'tuple':
        return (o,)
    shp = {'nd0': (), 'nd1': (1,), 'nd2row': (1, 1), 'nd2col': (1, 1), 'nd3': (1, 1, 1)}[kind]
    return obj_array([o], shp)


def shp_of(kind):
    return {'bare': (), 'list': (1,), 'tuple': (1,), 'nd0': (), 'nd1': (1,), 'nd2row': (1, 1),
            'nd2col': (1, 1), 'nd3': (1, 1, 1)}[kind]


def gamma_ball(n):
    """Volume of the unit ball in R^n."""
    return math.pi ** (n / 2.) / math.gamma(n / 2. + 1)


def frob(m):
    return math.sqrt(sum(float(x) ** 2 for r in m for x in r))


def tl(a):
    """numpy array -> nested lists of floats."""
    return np.asarray(a, dtype=np.float64).tolist()


def ev(m):
    """eigenvalues of a symmetric matrix given as array / lists, by the reference method."""
    return ora.jacobi(tl(m) if isinstance(m, np.ndarray) else m)[0]
