"""Generic stages over the alphabet of calls of a property (calls.py): results must not depend on the memory layout of
the arguments, nor on earlier calls with neighbouring arguments, on the same or on other array objects."""
import logging
import os
import pickle

import numpy as np

from calls import PIDS, calls_of
from core import Stage
from lib import DEFAULTS, Ellipsoid, Hyperplane, Properties, fail
from ellipy.gen.common.common import is_member
from ellipy.gras.gen.gen import MatVector, SquareMatVector, SymmetricMatVector, sqrt_pos
from ellipy.gras.geom.ell.ell import rho_mat
from ellipy.gras.geom.sup.sup import sup_2_boundary_3
from ellipy.gras.la import la


def canon(x):
    if isinstance(x, Ellipsoid):
        return 'E', canon(x.get_center_vec()), canon(x.get_shape_mat())
    if isinstance(x, Hyperplane):
        return 'H', canon(x.parameters()[0]), float(x.parameters()[1])
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'OUS':
            return 'A', list(x.shape), [canon(v) for v in x.ravel()]
        return 'N', list(x.shape), x.astype(complex).ravel().tolist() if x.dtype.kind == 'c' else x.ravel().tolist()
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    if callable(x):
        return 'f'
    return x


def differs(a, b, tol=1e-10):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differs(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() != b.keys() or any(differs(a[k], b[k], tol) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str):
        return a != b
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return not (a == b or (a != a and b != b) or abs(a - b) <= tol * max(1., abs(b)))
    return a != b


def outcome(f, args):
    try:
        return canon(f(*args))
    except Exception as e:
        return ['error', type(e).__name__]


def in_child(fn):
    """Value of fn() computed in a forked process, so that nothing it does is left in this one."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
        except BaseException as e:
            out = ['harness', repr(e)]
        with os.fdopen(w, 'wb') as fd:
            pickle.dump(out, fd)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fd:
        data = fd.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


# ------------------------------------------------------------------------------------------------------- layouts
def lay(a, kind):
    """The same array in another memory layout."""
    if kind == 'F':
        return np.asfortranarray(a.copy())
    if kind == 'rev':
        s = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[s])[s]
    if kind == 'swap01' and a.ndim >= 2:
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, 1)), 0, 1)
    if kind == 'swap12' and a.ndim >= 3:
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, -1, -2)), -1, -2)
    if kind == 'front' and a.ndim >= 2:
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1)
    if kind == 'strided':
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = big[(slice(None, None, 2),) * a.ndim]
        v[...] = a
        return v
    if kind == 'offset':
        big = np.zeros(tuple(s + 2 for s in a.shape), dtype=a.dtype)
        v = big[(slice(1, -1),) * a.ndim]
        v[...] = a
        return v
    if kind == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    return a


KINDS = ['F', 'rev', 'swap01', 'swap12', 'front', 'strided', 'offset', 'readonly']


def lay_cases(pid):
    def gen(tier):
        for n, (mk, f) in calls_of(pid).items():
            args = mk()
            ix = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.ndim >= 1]
            for kind in KINDS:
                for i in ix:
                    yield [n, kind, [i]]
                if len(ix) > 1:
                    yield [n, kind, ix]
    return gen


def run_lay(pid):
    def run(case, rec):
        name, kind, ix = case
        mk, f = calls_of(pid)[name]
        Properties.init()
        want = outcome(f, mk())
        if isinstance(want, list) and want[:1] == ['error']:
            fail('{}: {} raised by the call itself'.format(name, want[1]))
        args = mk()
        for i in ix:
            args[i] = lay(args[i], kind)
        before = canon(args)
        got = outcome(f, args)
        rec.step()
        if differs(got, want):
            fail('{}: result for argument {} in layout {!r} is {}, for a plain array {}'.format(
                name, ix, kind, repr(got)[:300], repr(want)[:300]))
        if differs(canon(args), before):
            fail('{}: an argument in layout {!r} was modified'.format(name, kind))
        rec.outcome(kind)
    return run


# ---------------------------------------------------------------------------------------------------- neighbours
def other_ell(e, k):
    c, q = e.double()
    c, q = np.array(c, dtype=float), np.array(q, dtype=float)
    kw = {n: float(Ellipsoid.get_property([e], n, None).flat[0]) for n in ('abs_tol', 'rel_tol')}
    if k == 0:
        c[..., -1] += 0.125
    elif k == 1:
        q = q + 0.125 * np.eye(q.shape[0])
    elif k == 2:
        q = q.copy()
        q[0, 0] += 0.25
    else:
        kw = {n: 2 * x for n, x in kw.items()}
    return Ellipsoid(c, q, **kw)


def other_hyp(h, k):
    v, s = h.parameters()
    v = np.array(v, dtype=float)
    kw = {n: float(Hyperplane.get_property([h], n, None).flat[0]) for n in ('abs_tol', 'rel_tol')}
    if k == 0:
        return Hyperplane(v, float(s) + 0.125, **kw)
    v[-1] += 0.125
    return Hyperplane(v, float(s), **kw)


def edits(args):
    """All single changes of the arguments: (path, how)."""
    out = []
    for i, a in enumerate(args):
        if isinstance(a, (Ellipsoid, Hyperplane)):
            out += [(i, None, k) for k in range(4 if isinstance(a, Ellipsoid) else 2)]
        elif isinstance(a, np.ndarray) and a.dtype.kind in 'fiu' and a.size:
            pos = sorted({0, a.size // 3, a.size // 2, a.size - 2, a.size - 1} & set(range(a.size)))
            out += [(i, p, k) for p in pos for k in range(3)]
            if a.ndim == 2 and a.shape[0] == a.shape[1] > 1:
                out += [(i, 'sym', 0)]
            if a.ndim >= 2:
                out += [(i, 'perm', 0)]
        elif isinstance(a, np.ndarray) and a.dtype.kind == 'U':
            out += [(i, p, 0) for p in range(a.size)]
        elif isinstance(a, (list, np.ndarray)) and len(a) and isinstance(np.ravel(np.array(a, dtype=object))[0], (Ellipsoid, Hyperplane)):
            m = np.size(np.array(a, dtype=object))
            out += [(i, p, k) for p in sorted({0, m // 2, m - 1}) for k in range(2)]
            if m > 1:
                out += [(i, 'rot', 0)]
        elif isinstance(a, bool):
            pass
        elif isinstance(a, int):
            out += [(i, None, k) for k in (1, 2)]
        elif isinstance(a, float):
            out += [(i, None, k) for k in (0, 1)]
        elif isinstance(a, list) and a and isinstance(a[0], int):
            out += [(i, p, 0) for p in range(len(a))]
        elif isinstance(a, list) and a and isinstance(a[0], str):
            out += [(i, 'rot', 0)]
        elif isinstance(a, str) and '[' in a:
            out += [(i, None, 0)]
        elif isinstance(a, dict):
            out += [(i, 'dict', 0)]
    return out


def apply(args, ed):
    i, p, k = ed
    a = args[i]
    if isinstance(a, Ellipsoid):
        args[i] = other_ell(a, k)
    elif isinstance(a, Hyperplane):
        args[i] = other_hyp(a, k)
    elif isinstance(a, np.ndarray) and a.dtype.kind in 'fiu':
        if p == 'sym':
            a[0, 1] += 0.125
            a[1, 0] += 0.125
        elif p == 'perm':
            a[...] = np.roll(a, 1, axis=-1)
        elif a.dtype.kind != 'f':
            a.flat[p] = a.flat[p] + (1, 2, -1)[k]
        else:
            a.flat[p] = (a.flat[p] + 0.125, -a.flat[p], a.flat[p] * (1 + 1e-6) + 1e-7)[k]
    elif isinstance(a, np.ndarray) and a.dtype.kind == 'U':
        b = a.astype('U40')
        b.flat[p] = '(' + str(b.flat[p]) + ')*3'
        args[i] = b
    elif isinstance(a, (list, np.ndarray)) and p == 'rot':
        if isinstance(a, list):
            args[i] = a[1:] + a[:1]
        else:
            a.flat[:] = np.roll(a.ravel(), 1)
    elif isinstance(a, list) and isinstance(a[0], int):
        a[p] += 1
    elif isinstance(a, (list, np.ndarray)):
        f = a if isinstance(a, list) else a.flat
        f[p] = (other_ell if isinstance(f[p], Ellipsoid) else other_hyp)(f[p], k)
    elif isinstance(a, int):
        args[i] = a + k
    elif isinstance(a, float):
        args[i] = a * (1.5, 1.25)[k]
    elif isinstance(a, str):
        args[i] = a.replace('1', '3', 1)
    elif isinstance(a, dict):
        a['a'] = [1., 2.25] if not isinstance(a['a'], np.ndarray) else a['a'] + 0.25
    return args


def copy_into(dst, src):
    """Make the argument list dst hold the values of src, keeping its array objects where the kinds agree."""
    for i, (d, s) in enumerate(zip(dst, src)):
        if isinstance(d, np.ndarray) and isinstance(s, np.ndarray) and d.shape == s.shape and d.dtype == s.dtype:
            d[...] = s
        elif isinstance(d, list) and isinstance(s, list):
            d[:] = s
        else:
            dst[i] = s
    return dst


def wreck(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                wreck(v)
        elif x.flags.writeable and x.dtype.kind in 'fiubc':
            x[...] = 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            wreck(v)


def nb_cases(pid):
    def gen(tier):
        for n, (mk, f) in calls_of(pid).items():
            eds = edits(mk())
            for mode in ('fresh', 'inplace'):
                for k in range(len(eds)):
                    yield [n, mode, [k]]
            if tier != 'quick':
                for k in range(len(eds)):
                    for m in range(len(eds)):
                        if k != m:
                            yield [n, 'fresh', [k, m]]
    return gen


_alone = {}


def run_nb(pid):
    def run(case, rec):
        name, mode, ks = case
        mk, f = calls_of(pid)[name]
        eds = edits(mk())

        def args_of(k):
            return mk() if k is None else apply(mk(), eds[k])

        def alone(k):
            if (name, k) not in _alone:
                def go():
                    Properties.init()
                    return outcome(f, args_of(k))
                _alone[name, k] = in_child(go)
            return _alone[name, k]

        order = [None] + list(ks) + [None] + list(ks)[:1]
        if alone(None)[:1] == ['error'] if isinstance(alone(None), list) else False:
            fail('{}: the call itself fails: {}'.format(name, alone(None)))

        def history():
            Properties.init()
            out = []
            held = mk()
            for k in order:
                args = args_of(k) if mode == 'fresh' else copy_into(held, args_of(k))
                try:
                    r = f(*args)
                    out.append(canon(r))
                    if mode == 'fresh':
                        wreck(r)
                except Exception as e:
                    out.append(['error', type(e).__name__])
            return out

        got = in_child(history)
        rec.step(len(order))
        for j, (k, g) in enumerate(zip(order, got)):
            if differs(g, alone(k)):
                fail('{}: call {} of the history {} ({}; numbers are changes of the arguments, {}) gives {}, as a first call {}'.format(
                    name, j + 1, order, mode, eds, repr(g)[:300], repr(alone(k))[:300]))
        rec.trace()
        rec.outcome(name)
    return run


# ---------------------------------------------------------------------------------------------- almost equal elements
def twin_menu():
    """(shape matrix, center, tolerance): twins that differ little, absolutely or relatively, at several scales."""
    out = []
    for k, sc in ((0, 1.), (1, 1e-5), (2, 1e-9)):
        tol = sc * 1e-3
        q = np.array([[4., 1.], [1., 3.]]) * sc
        r = np.sqrt(sc) / 8
        out.append((q, np.array([0., 0.]), tol))
        out.append((q * (1 + 1e-2), np.array([0., 0.]), tol))
        out.append((q + np.array([[0., 1e-2], [1e-2, 0.]]) * sc, np.array([0., 0.]), tol))
        out.append((q, np.array([r, -2 * r]), tol))
        out.append((q, np.array([r, -2 * r]) * (1 + 1e-2), tol))
    out.append((np.array([[4., 1.], [1., 3.]]) + np.array([[1e-9, 0], [0, -1e-9]]), np.array([1e-9, 0.]), 1e-3))
    out.append((np.array([[4., 1.], [1., 3.]]), np.array([0., 0.]), 1e-9))
    out.append((np.array([[4., 0.], [0., 3.]]), np.array([0., 0.]), 1e-9))
    return out


def twin_h():
    out = []
    for sc in (1., 1e-5, 1e-9):
        out += [([1. * sc, 2. * sc], 3. * sc), ([1. * sc, 2. * sc], 3.001 * sc), ([1. * sc, 2.001 * sc], 3. * sc), ([-1. * sc, -2. * sc], -3. * sc), ([1. * sc, 2. * sc], 0.)]
    return out


def mk_twin(i):
    q, c, t = twin_menu()[i]
    return Ellipsoid(c, q, abs_tol=t)


def mk_htwin(i):
    v, s = twin_h()[i]
    return Hyperplane(np.array(v), s, abs_tol=1e-12)


def par(o):
    if isinstance(o, Ellipsoid):
        return [np.ravel(o.get_center_vec()), np.ravel(o.get_shape_mat())]
    v, s = o.parameters()
    return [np.ravel(v), np.array([float(s)])]


def objs(r):
    return [par(o) for o in np.ravel(np.array(r, dtype=object))]


def nums(r):
    return [[np.array([float(v)])] for v in np.ravel(np.asarray(r))]


def objs_of(f):
    return lambda a: objs(f(a))


def nums_of(f):
    return lambda a: nums(f(a))


DIR = np.array([[1.], [2.]])
PTS = np.array([[1.], [1.]])


def rho_all(a):
    s, b = Ellipsoid.rho(a, DIR)
    b = np.asarray(b).reshape(2, -1)
    return [[np.array([float(v)]), b[:, i]] for i, v in enumerate(np.ravel(s))]


EW = {
    'C07': {'copy': objs_of(lambda a: Ellipsoid.get_copy(a)), 'dict': objs_of(lambda a: Ellipsoid.from_dict(Ellipsoid.to_dict(a, True)[0]))},
    'C08': {'rho': rho_all},
    'C10': {'getproj': objs_of(lambda a: Ellipsoid.get_projection(a, np.array([[3.], [4.]]))),
            'proj': objs_of(lambda a: Ellipsoid.projection(Ellipsoid.get_copy(a), np.array([[3., 4.], [4., -3.]])))},
    'C11': {n: nums_of(getattr(Ellipsoid, n)) for n in ('volume', 'trace', 'min_eig', 'max_eig', 'is_degenerate')},
    'C14': {'polar': objs_of(lambda a: Ellipsoid.polar(a))},
    'C17': {'uminus': objs_of(lambda a: Ellipsoid.uminus(a))},
}
EW_H = {
    'C07': {'hcopy': objs_of(lambda a: Hyperplane.get_copy(a)), 'hdict': objs_of(lambda a: Hyperplane.from_dict(Hyperplane.to_dict(a, True)[0]))},
    'C17': {'huminus': objs_of(lambda a: Hyperplane.uminus(a))},
    'C18': {'contains': nums_of(lambda a: Hyperplane.contains(a, PTS)), 'parallel': nums_of(lambda a: Hyperplane.is_parallel(a, mk_htwin(0)))},
    'C06': {'his_equal': nums_of(lambda a: Hyperplane.is_equal(a, mk_htwin(0))[0])},
}


def tw_cases(pid):
    def gen(tier):
        for fam, tab, m in (('E', EW, len(twin_menu())), ('H', EW_H, len(twin_h()))):
            for name in tab.get(pid, {}):
                for i in range(m):
                    for j in range(m):
                        yield [fam, name, [i, j]]
                        if tier != 'quick' or (i + j) % 3 == 0:
                            yield [fam, name, [i, j, i]]
                            yield [fam, name, [i, i, j, j]]
    return gen


_single = {}


def run_tw(pid):
    def run(case, rec):
        fam, name, ix = case
        f = (EW if fam == 'E' else EW_H)[pid][name]
        mk = mk_twin if fam == 'E' else mk_htwin
        Properties.init()
        for i in set(ix):
            if (fam, name, i) not in _single:
                a = np.empty((1,), dtype=object)
                a[0] = mk(i)
                _single[fam, name, i] = f(a)[0]
        for shp in ((len(ix),), (1, len(ix)), (len(ix) // 2, 2) if len(ix) == 4 else (len(ix), 1)):
            a = np.empty((len(ix),), dtype=object)
            for k, i in enumerate(ix):
                a[k] = mk(i)
            got = f(a.reshape(shp))
            if len(got) != len(ix):
                fail('{}: {} results for {} objects'.format(name, len(got), len(ix)))
            for k, i in enumerate(ix):
                for g, w in zip(got[k], _single[fam, name, i]):
                    if g.shape != w.shape or not np.all(np.abs(g - w) <= 1e-9 * np.max(np.abs(w))):
                        fail('{}: element {} of the array of objects {} gives {}, alone it gives {}'.format(name, k, ix, g.tolist(), w.tolist()))
            rec.step()
        rec.outcome(name)
    return run


# -------------------------------------------------------------------------------------------- configured values changed
SHIFT = {'tolerances up': dict(abs_tol=0.05, rel_tol=0.05), 'tolerances down': dict(abs_tol=1e-14, rel_tol=1e-14),
         'other settings': dict(n_plot_2d_points=7, n_plot_3d_points=13, n_time_grid_points=3, reg_tol=0.25, is_ode_norm_control=False),
         'verbose': dict(is_verbose=True)}


def pin(cls, values):
    """Make every new object take the given captured values unless told otherwise."""
    old = cls.__init__

    def init(self, *args, **kw):
        for k, x in values.items():
            kw.setdefault(k, x)
        old(self, *args, **kw)
    cls.__init__ = init
    return old


def conf_cases(pid):
    def gen(tier):
        for n in calls_of(pid):
            for k in SHIFT:
                yield [n, k]
    return gen


def conf_outcome(mk, f, conf):
    """Outcome for objects that capture the default values, under other configured values."""
    Properties.init()
    logging.disable(logging.CRITICAL)
    tol = {k: DEFAULTS[k] for k in ('abs_tol', 'rel_tol')}
    oe = pin(Ellipsoid, dict(tol, n_plot_2d_points=DEFAULTS['n_plot_2d_points'], n_plot_3d_points=DEFAULTS['n_plot_3d_points']))
    oh = pin(Hyperplane, tol)
    try:
        args = mk()
        Properties.set_conf_repo_mgr(dict(DEFAULTS, **conf))
        return outcome(f, args)
    finally:
        Ellipsoid.__init__, Hyperplane.__init__ = oe, oh
        Properties.init()


def run_conf(pid):
    def run(case, rec):
        """All the objects that take part capture the default values, so other configured values change nothing."""
        name, shift = case
        check_conf(name, calls_of(pid)[name], shift)
        rec.step(2)
        rec.outcome(shift)
    return run


def check_conf(name, call, shift):
    mk, f = call
    want = conf_outcome(mk, f, {})
    got = conf_outcome(mk, f, SHIFT[shift])
    if isinstance(want, list) and want[:1] == ['error']:
        fail('{}: {} raised by the call itself'.format(name, want[1]))
    if differs(got, want):
        fail('{}: after a change of the configured values {} the result for the same objects is {}, before it {}'.format(
            name, SHIFT[shift], repr(got)[:300], repr(want)[:300]))


# ------------------------------------------------------------------------------------------------- batches of elements
def dir_menu(n):
    d = np.array([1., 2., -1.][:n])
    e = np.array([2., -1., 3.][:n])
    out = [d, e, -d, d * (1 + 1e-6), d + 1e-6 * e, d * 1e-9, e * 1e-9, d * 1e9, 2 * d, np.eye(n)[0], np.eye(n)[n - 1], -np.eye(n)[0] * 1e-9]
    return [x.reshape(-1, 1) for x in out]


def pt_menu():
    out = []
    for r in (0., 0.9999, 1.0001, 1., 0.1, 1.1, 0.9999 + 1e-6):
        for u in ((1., 0.), (0., 1.), (0.6, -0.8)):
            out.append(np.array([[r * u[0]], [r * u[1]]]))
    return out[::2]


def mat_menu():
    q = np.array([[4., 1.], [1., 3.]])
    r = np.array([[5., -2.], [-2., 3.]])
    skew = np.array([[0., 1e-6], [1e-6, 0.]])
    return [q, r, q * (1 + 1e-6), q + skew, q * 1e-9, r * 1e-9, q * 1e9, q * 1e-9 * (1 + 1e-6), 2 * q, np.eye(2), np.eye(2) * 1e-9, np.array([[1., 0.], [0., 1e-9]])]


def gen_menu():
    q = np.array([[1., 2.], [3., 4.]])
    r = np.array([[0., 1.], [-1., 2.]])
    return [q, r, q * (1 + 1e-6), q + np.array([[0., 1e-6], [0., 0.]]), q * 1e-9, r * 1e-9, q.T, -q, q * 1e9, np.eye(2)]


def split_last(x):
    x = np.asarray(x)
    return [[x[..., i]] for i in range(x.shape[-1])]


def dirs_of(xs):
    return np.hstack(xs)


def vec_slices(xs):
    return np.hstack([x[:, :1] for x in xs])


def mats_of(xs):
    return np.dstack(xs)


def many(xs):
    return [[np.asarray(v, dtype=float)] for v in xs]


QA = np.array([[4., 1.], [1., 3.]])
QB = np.array([[2., 1.], [1., 5.]])
Q3A = np.array([[3., 1., 0.], [1., 2., 0.], [0., 0., 1.]])
R2 = np.array([[1., 2.], [-1., 3.]])


def two(n=2):
    return [Ellipsoid(np.arange(1., n + 1), QA if n == 2 else Q3A), Ellipsoid(np.zeros((n,)), QB if n == 2 else np.diag([1., 4., 9.]))]


def rho_cols(n):
    def f(xs):
        s, b = Ellipsoid.rho(two(n)[0], dirs_of(xs))
        s = np.ravel(s)
        b = np.asarray(b).reshape(n, -1)
        return [[s[i:i + 1], b[:, i]] for i in range(len(s))]
    return f


def mat_table(menu):
    m = gen_menu if menu == 'gen' else mat_menu
    t = {'transpose': MatVector.transpose, 'triu': MatVector.triu, 'symm': MatVector.make_symmetric,
         'rmul': lambda a: MatVector.r_multiply(a, R2), 'rmul_self': lambda a: MatVector.r_multiply(a, a), 'rmul_s': lambda a: MatVector.r_multiply(a, a, None, False),
         'rmul_vec': lambda a: MatVector.r_multiply_by_vec(a, a[:, 0, :]), 'rmul_vec_s': lambda a: MatVector.r_multiply_by_vec(a, a[:, 1, :], False)} if menu == 'gen' else \
        {'inv': SquareMatVector.inv, 'sqrtm': SquareMatVector.sqrtm_pos, 'ornan': SquareMatVector.make_pos_definite_or_nan,
         'byeig': lambda a: SquareMatVector.make_pos_definite_by_eig(a, 1e-5), 'lr': lambda a: SquareMatVector.lr_multiply(a, np.dstack([R2] * a.shape[2])),
         'lr_self': lambda a: SquareMatVector.lr_multiply(a, a, 'R'), 'pinv': MatVector.pinv,
         'lr_vec': lambda a: SquareMatVector.lr_multiply_by_vec(a, a[:, 0, :]), 'lr_div': lambda a: SquareMatVector.lr_divide_vec(a, a[:, 0, :]),
         'svd': lambda a: SymmetricMatVector.lr_svd_multiply(a, a), 'svd_r': lambda a: SymmetricMatVector.r_svd_multiply_by_vec(a, a[:, 1, :]),
         'svd_lr': lambda a: SymmetricMatVector.lr_svd_multiply_by_vec(a, a[:, 1, :]), 'svd_div': lambda a: SymmetricMatVector.lr_svd_divide_vec(a, a[:, 0, :])}
    return {k: (m, lambda xs, g=g: split_last(g(mats_of(xs)))) for k, g in t.items()}


def time_menu():
    return [0., 1., 1. + 1e-6, 1e-9, 2e-9, 2., -1., 1e9, 1e-9 * (1 + 1e-6), 0.5]


FORMULAS = np.array([['t', '1'], ['sin(t)', 't**2-t']])


def f_const_buffer():
    buf = np.zeros((2, 2))

    def f(t):
        buf[...] = [[t, 1.], [t * t, -t]]
        return buf
    return f


def buffered(op):
    buf = np.zeros((2, 2))

    def f(m):
        buf[...] = op(m)
        return buf
    return f


def face_menu():
    return [(0, 1, 2), (2, 1, 0), (1, 2, 3), (0, 2, 3), (1, 3, 0), (2, 3, 4), (0, 1, 4)]


FDIRS = np.array([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., 1., 1.], [1., -1., 2.]])
FSUP = np.array([1., 2., 3., 4., 5.])

COLS = {
    'C08': {'rho2': (lambda: dir_menu(2), rho_cols(2)), 'rho3': (lambda: dir_menu(3), rho_cols(3)),
            'rho_mat': (lambda: dir_menu(2), lambda xs: [[a, b] for a, b in zip(np.ravel(rho_mat(QA, dirs_of(xs), 1e-7, np.array([[1.], [2.]]))[0]),
                                                                                 np.asarray(rho_mat(QA, dirs_of(xs), 1e-7, np.array([[1.], [2.]]))[1]).T)])},
    'C12': {m: (pt_menu, lambda xs, m=m: many(np.ravel(Ellipsoid.is_internal([Ellipsoid(np.eye(2)), Ellipsoid(np.array([0.5, 0.]), np.eye(2))], np.hstack(xs), m))))
            for m in 'ui'},
    'C15': {'ea2': (lambda: dir_menu(2), lambda xs: objs(Ellipsoid.minksum_ea(two(), dirs_of(xs)))),
            'ea3': (lambda: dir_menu(3), lambda xs: objs(Ellipsoid.minksum_ea(two(3), dirs_of(xs))))},
    'C16': {'ia2': (lambda: dir_menu(2), lambda xs: objs(Ellipsoid.minksum_ia(two(), dirs_of(xs)))),
            'ia3': (lambda: dir_menu(3), lambda xs: objs(Ellipsoid.minksum_ia(two(3), dirs_of(xs))))},
    'C18': {'contains': (lambda: [np.array([[x], [y]]) for x, y in ((1., 1.), (1., 1. + 1e-5), (1., 1. + 1e-8), (0., 1.5), (3., 0.), (3. + 1e-5, 0.), (-1., 2.), (1e9, 0.))],
                         lambda xs: many(np.ravel(Hyperplane.contains([Hyperplane(np.array([1., 2.]), 3.)], np.hstack(xs)))))},
    'C20': {'is_member': (lambda: [1., 2., 1. + 1e-9, -1., 1e-9, 2e-9, 3., 0.], lambda xs: many(is_member(np.array(xs), np.array([2., 1., 1e-9, 1., 2.]))[0]))},
    'C21': {'sqrt_pos': (lambda: [4., 0., 1e-9, 2e-9, 9., 4. * (1 + 1e-6), 1e9, -1e-9], lambda xs: many(sqrt_pos(np.array(xs), 1e-7)))},
    'C22': {'ml': (lambda: dir_menu(3), lambda xs: split_last(la.ml_orth_transl(np.array([[1.], [0.], [2.]]), np.stack([x.reshape(3, 1) for x in xs], axis=2))[:, :, :, 0])),
            'ml_vecs': (lambda: dir_menu(3), lambda xs: split_last(la.ml_orth_transl(dirs_of(xs), np.array([[1.], [0.], [2.]]) + 0 * dirs_of(xs))[:, :, 0, :]))},
    'C24': dict(mat_table('gen'), **mat_table('sym')),
    'C25': {'formula': (time_menu, lambda xs: split_last(MatVector.from_formula_mat(FORMULAS, np.array(xs)))),
            'expr': (time_menu, lambda xs: split_last(MatVector.from_expression('[t, 1], [t*t, cos(t)]', np.array(xs)))),
            'func': (time_menu, lambda xs: split_last(MatVector.from_func(lambda t: np.array([[t, 1.], [2., t * t]]), np.array(xs)))),
            'func_buffer': (time_menu, lambda xs: split_last(MatVector.from_func(f_const_buffer(), np.array(xs)))),
            'eval': (gen_menu, lambda xs: many(MatVector.eval_func(np.trace, mats_of(xs)))),
            'eval_mat': (gen_menu, lambda xs: split_last(MatVector.eval_func(lambda m: m @ R2, mats_of(xs), True, True))),
            'eval_list': (gen_menu, lambda xs: many(MatVector.eval_func(lambda m: m @ R2, mats_of(xs), False))),
            'eval_buffer': (gen_menu, lambda xs: split_last(MatVector.eval_func(buffered(lambda m: m @ R2), mats_of(xs), True, True)))},
    'C30': {'sup3': (face_menu, lambda xs: many(np.asarray(sup_2_boundary_3(FDIRS, FSUP, np.array(xs)))))},
}


def col_cases(pid):
    def gen(tier):
        for n, (menu, f) in COLS.get(pid, {}).items():
            m = len(menu())
            for i in range(m):
                for j in range(m):
                    yield [n, [i, j]]
                    if tier != 'quick' or (i + 2 * j) % 3 == 0:
                        yield [n, [i, j, i]]
                        yield [n, [i, i, j]]
            if tier != 'quick':
                for i in range(m):
                    for j in range(m):
                        for k in range(m):
                            yield [n, [i, j, k]]
            yield [n, list(range(m))]
            yield [n, list(range(m))[::-1]]
    return gen


_col = {}


def run_col(pid):
    def run(case, rec):
        name, ix = case
        menu, f = COLS[pid][name]
        Properties.init()
        items = menu()
        for i in set(ix):
            if (name, i) not in _col:
                _col[name, i] = f([items[i]])
        got = f([items[i] for i in ix])
        if len(got) != len(ix):
            fail('{}: {} results for {} elements'.format(name, len(got), len(ix)))
        for k, i in enumerate(ix):
            for g, w in zip(got[k], _col[name, i][0]):
                g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
                if g.shape != w.shape or not np.all((np.abs(g - w) <= 1e-9 * np.max(np.abs(w), initial=0.)) | (g == w) | (np.isnan(g) & np.isnan(w))):
                    fail('{}: element {} of the batch {} gives {}, alone it gives {}'.format(name, k, ix, g.tolist(), w.tolist()))
        rec.step()
        rec.outcome(name)
    return run


# ------------------------------------------------------------------------------- one object in several places, used objects
def slots(args, kinds=(Ellipsoid, Hyperplane)):
    """Places of the arguments that hold objects."""
    out = []
    for i, a in enumerate(args):
        if isinstance(a, kinds):
            out.append((i, None))
        elif isinstance(a, list) or isinstance(a, np.ndarray) and a.dtype == object:
            out += [(i, p) for p, v in enumerate(a if isinstance(a, list) else a.ravel()) if isinstance(v, kinds)]
    return out


def slot_get(args, s):
    i, p = s
    return args[i] if p is None else args[i][p] if isinstance(args[i], list) else args[i].flat[p]


def slot_set(args, s, x):
    i, p = s
    if p is None:
        args[i] = x
    elif isinstance(args[i], list):
        args[i][p] = x
    else:
        args[i].flat[p] = x


def rep_cases(pid, calls=None):
    def gen(tier):
        for n, (mk, f) in (calls or calls_of(pid)).items():
            args = mk()
            sl = slots(args)
            for j in range(len(sl)):
                for k in range(len(sl)):
                    if j != k and type(slot_get(args, sl[j])) is type(slot_get(args, sl[k])):
                        yield [n, 'object', j, [k]]
            if len(sl) > 2 or len(sl) == 2 and tier != 'quick':
                for j in range(len(sl)):
                    yield [n, 'object', j, [k for k in range(len(sl)) if k != j]]
            ar = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.dtype.kind in 'fiu']
            for j in ar:
                for k in ar:
                    if j != k and args[j].shape == args[k].shape and args[j].dtype == args[k].dtype:
                        yield [n, 'array', j, [k]]
            li = [i for i, a in enumerate(args) if isinstance(a, list) or isinstance(a, np.ndarray) and a.dtype == object]
            for j in li:
                for k in li:
                    if j != k and type(args[j]) is type(args[k]) and np.shape(np.array(args[j], dtype=object)) == np.shape(np.array(args[k], dtype=object)):
                        yield [n, 'array', j, [k]]
    return gen


def check_rep(name, call, what, j, ks):
    mk, f = call
    Properties.init()
    same, apart = mk(), mk()
    if what == 'object':
        sl = slots(same)
        for k in ks:
            slot_set(same, sl[k], slot_get(same, sl[j]))
            slot_set(apart, sl[k], slot_get(mk(), sl[j]))
    else:
        for k in ks:
            same[k] = same[j]
            apart[k] = mk()[j]
    got, want = outcome(f, same), outcome(f, apart)
    if differs(got, want):
        fail('{}: with the same {} in places {} the result is {}, with equal ones {}'.format(name, what, [j] + ks, repr(got)[:300], repr(want)[:300]))
    if differs(canon(same), canon(apart)):
        fail('{}: with the same {} in places {} the arguments end up as {}, equal ones as {}'.format(
            name, what, [j] + ks, repr(canon(same))[:300], repr(canon(apart))[:300]))


def run_rep(pid):
    def run(case, rec):
        """One object given in several places counts as several equal objects."""
        name, what, j, ks = case
        check_rep(name, calls_of(pid)[name], what, j, ks)
        rec.step(2)
        rec.outcome(what)
    return run


def rotation(n, k):
    """Exact orthogonal square matrices (k = 0, 1) or the first n-1 columns of one (k = 2)."""
    if k == 0:
        return np.eye(n)[:, ::-1].copy()
    m = np.eye(n)
    if n > 1:
        m[:2, :2] = [[0.6, -0.8], [0.8, 0.6]]
    else:
        m = -m
    return m if k == 1 else m[:, :-1]


KW = ('abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points')


def rebuilt(e):
    kw = {n: Ellipsoid.get_property([e], n, None).flat[0] for n in KW}
    kw = {n: float(x) if 'tol' in n else int(x) for n, x in kw.items()}
    return Ellipsoid(np.array(e.get_center_vec(), dtype=float).ravel(), np.array(e.get_shape_mat(), dtype=float), **kw)


def used_cases(pid, calls=None):
    def gen(tier):
        for n, (mk, f) in (calls or calls_of(pid)).items():
            if slots(mk(), Ellipsoid):
                for k in (0, 1, 2):
                    yield [n, k]
    return gen


def check_used(name, call, k):
    mk, f = call
    Properties.init()

    def turn(args):
        seen = {}
        for s in slots(args, Ellipsoid):
            e = slot_get(args, s)
            seen[id(e)] = e
        for e in seen.values():
            n = int(np.ravel(e.dimension([e]))[0])
            if n > (1 if k == 2 else 0):
                Ellipsoid.projection([e], rotation(n, k))
        return args

    used = mk()
    outcome(f, used)
    turn(used)
    got = outcome(f, used)
    want = outcome(f, turn(mk()))
    fresh = turn(mk())
    for s in slots(fresh, Ellipsoid):
        e = slot_get(fresh, s)
        if int(np.ravel(e.dimension([e]))[0]):
            slot_set(fresh, s, rebuilt(e))
    for what, w in (('the same objects not used before', want), ('new objects of the same parameters', outcome(f, fresh))):
        if differs(got, w):
            fail('{}: after a call and a projection in place the result is {}, for {} {}'.format(name, repr(got)[:300], what, repr(w)[:300]))


def run_used(pid):
    def run(case, rec):
        """Objects changed in place behave as new objects of the same parameters."""
        name, k = case
        check_used(name, calls_of(pid)[name], k)
        rec.step(4)
        rec.outcome(k)
    return run


CONF_PIDS = ['C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18']


def stages(pid):
    assert pid in PIDS
    out = [Stage('neighbours', nb_cases(pid), run_nb(pid)), Stage('layouts', lay_cases(pid), run_lay(pid))]
    if next(iter(rep_cases(pid)('quick')), None) is not None:
        out.append(Stage('repeated arguments', rep_cases(pid), run_rep(pid)))
    if next(iter(used_cases(pid)('quick')), None) is not None:
        out.append(Stage('changed objects', used_cases(pid), run_used(pid)))
    if pid in EW or pid in EW_H:
        out.append(Stage('twins', tw_cases(pid), run_tw(pid)))
    if pid in COLS:
        out.append(Stage('batches', col_cases(pid), run_col(pid)))
    if pid in CONF_PIDS:
        out.append(Stage('configured values', conf_cases(pid), run_conf(pid)))
    return out
