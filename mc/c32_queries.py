"""C32: queries of captured properties, and the text form of objects."""
import itertools
import re

import numpy as np

import ora
from core import Check, Stage
from lib import ARRAY_KINDS, Ellipsoid, Hyperplane, Properties, ell, expect, expect_error, hyp, obj_array, reset, shp_of, snap, snap_config, wrap

VALUES = {'abs_tol': [1e-7, 1e-3, 2e-9], 'rel_tol': [1e-5, 0.5, 1e-2], 'n_plot_2d_points': [200, 5, 17], 'n_plot_3d_points': [200, 1, 33]}
OF = {'E': list(VALUES), 'H': ['abs_tol', 'rel_tol']}
ALIAS = {'abs_tol': ['abs_tol', 'absTol'], 'rel_tol': ['rel_tol', 'relTol'], 'n_plot_2d_points': ['n_plot_2d_points', 'nPlot2dPoints'],
         'n_plot_3d_points': ['n_plot_3d_points', 'nPlot3dPoints']}
SHAPES = [(0,), (0, 2), (1,), (1, 1), (2,), (1, 2), (2, 1), (3,), (3, 1), (2, 2), (4,), (1, 2, 2), (2, 3)]
PARS = {'E': [([], None), ([1, -2], [[2, 1], [1, 3]]), ([0, 0, 4], ora.diag([1, 0, 2]))], 'H': [([0], 0), ([3, -4], 5), ([1, 2, 2], -1)]}
REDUCE = {'min': np.min, 'max': np.max, 'first': lambda z: z.flat[0], 'sum': np.sum, 'size': lambda z: float(np.size(z))}


def klass(c):
    return Ellipsoid if c == 'E' else Hyperplane


def make(c, k):
    """Object number k carries the values of the digits of k in base 3."""
    kw = {n: v[k // 3 ** i % 3] for i, (n, v) in enumerate(VALUES.items()) if n in OF[c]}
    p = PARS[c][k % 3]
    if c == 'E':
        return (Ellipsoid(**kw) if p[1] is None else ell(p[1], p[0], **kw)), kw
    return hyp(p[0], p[1], **kw), kw


NK = {'E': 81, 'H': 9}


def arr_cases(tier):
    for c in 'EH':
        for shp in SHAPES:
            m = int(np.prod(shp))
            if m <= (1 if tier == 'quick' else 2) or c == 'H' and m <= (2 if tier == 'quick' else 3):
                pats = list(itertools.product(range(NK[c]), repeat=m))
            else:
                pats = [[(o * 5 + s * i) % NK[c] for i in range(m)] for o in range(27) for s in (0, 1, 2, 3, 9, 27, 40)]
            for p in pats:
                yield [c, list(shp), list(p)]
        for kind in ARRAY_KINDS:
            for k in range(NK[c]):
                yield [c, kind, [k]]


def methods(c, n):
    """Ways to ask: (name, function of container and further arguments)."""
    k = klass(c)
    out = [('get_property ' + a, lambda x, *r, a=a: k.get_property(x, a, *r)) for a in ALIAS[n]]
    if n in ('abs_tol', 'rel_tol'):
        out.append(('get_' + n, getattr(k, 'get_' + n)))
    return out


def check_all(c, a, kws, what):
    """Every query of the container a must list the values kws in order."""
    k = klass(c)
    m = len(kws)
    for n in OF[c]:
        want = [float(kw[n]) for kw in kws]
        for name, f in methods(c, n):
            r = f(a, None)
            expect(isinstance(r, np.ndarray) and np.ravel(r).tolist() == want, '{}: {} gives {!r} instead of {}', what, name, r, want)
            r = f(a)
            expect(isinstance(r, tuple) and len(r) == 2 and np.ravel(r[0]).tolist() == want, '{}: {} gives {!r} instead of {}', what, name, r, want)
            if m == 0:
                expect(np.isnan(r[1]), '{}: {} of no objects has the smallest value {!r}', what, name, r[1])
            else:
                expect(float(r[1]) == min(want), '{}: {} has the smallest value {!r} instead of {}', what, name, r[1], min(want))
                np.asarray(r[0])[...] = -1.
            for rn, g in REDUCE.items():
                seen = []

                def red(z):
                    seen.append(np.ravel(z).tolist())
                    return g(z)
                r = f(a, red)
                expect(np.ravel(r[0]).tolist() == want, '{}: {} with a reduction gives {!r} instead of {}', what, name, r, want)
                if m == 0:
                    expect(np.isnan(r[1]), '{}: {} of no objects is reduced to {!r}', what, name, r[1])
                else:
                    expect(seen == [want] and float(r[1]) == float(g(np.array(want))), '{}: {} reduced by {} gives {!r} ({} were given)', what, name, rn, r[1], seen)
        if n.startswith('n_plot'):
            r = getattr(k, 'get_' + n)(a)
            expect(isinstance(r, np.ndarray) and np.ravel(r).tolist() == want, '{}: get_{} gives {!r} instead of {}', what, n, r, want)


def run_arr(case, rec):
    c, shp, pat = case
    made = [make(c, k) for k in pat]
    objs, kws = [x for x, _ in made], [w for _, w in made]
    a = wrap(objs[0], shp) if isinstance(shp, str) else obj_array(objs, tuple(shp))
    before = [snap(o) for o in objs]
    for conf in (None, {'abs_tol': 1e-1, 'rel_tol': 1e-9, 'n_plot_2d_points': 7, 'n_plot_3d_points': 9}):
        for n, v in (conf or {}).items():
            getattr(Properties, 'set_' + n)(v)
        conf_before = snap_config()
        check_all(c, a, kws, 'container {} of objects {}'.format(shp, pat))
        expect(snap_config() == conf_before, 'a query changed the configuration')
    expect([snap(o) for o in objs] == before, 'a query changed an object')
    if objs and not isinstance(shp, str):
        check_all(c, list(objs), kws, 'list of objects {}'.format(pat))
        check_all(c, tuple(objs), kws, 'tuple of objects {}'.format(pat))
    rec.outcome((c, len(pat)))


def rej_cases(tier):
    for c in 'EH':
        for i in range(6):
            yield [c, i]


def run_rej(case, rec):
    c, i = case
    mine, other = make(c, 1)[0], make('H' if c == 'E' else 'E', 1)[0]
    bad = [other, [mine, other], [other, mine], obj_array([mine, mine, other, mine], (2, 2)), 3., [mine, 'text']][i]
    for n in OF[c]:
        for name, f in methods(c, n):
            expect_error(lambda: f(bad), 'wrongInput', name)
            expect_error(lambda: f(bad, None), 'wrongInput', name)
    if c == 'E':
        expect_error(lambda: Ellipsoid.get_n_plot_2d_points(bad), 'wrongInput', 'get_n_plot_2d_points')
        expect_error(lambda: Ellipsoid.get_n_plot_3d_points(bad), 'wrongInput', 'get_n_plot_3d_points')
    for n in ('tolerance', '', 'abs_tol ', 'n_time_grid_points') + (('n_plot_2d_points', 'nPlot3dPoints', 'center_vec') if c == 'H' else ('shift', 'normal_vec')):
        try:
            r = klass(c).get_property([mine], n)
        except Exception:
            continue
        expect(False, 'unknown property {!r} has the value {!r}', n, r)
    rec.outcome(c)


# -- text form ---------------------------------------------------------------------------------------
NUM = re.compile(r'-?\d+\.?\d*(?:e[-+]?\d+)?')


def numbers(text):
    """Numbers of the data part of the text form."""
    return [float(x) for x in NUM.findall(text[text.index('Data') + 4:])]


def text_cases(tier):
    for c in 'EH':
        for n in (1, 2, 3, 4):
            for k in range(12 if tier == 'quick' else 40):
                yield [c, n, k]


def params(c, n, k):
    if c == 'E':
        q = ora.fl(ora.pd(n, (2, 3), (0, 1, -1))[(7 * k) % len(ora.pd(n, (2, 3), (0, 1, -1)))]) if n < 4 else [[float(5 + i + k if i == j else (i + j) % 2) for j in range(4)] for i in range(4)]
        return [float((3 * i + k) % 11 - 5) for i in range(n)], q
    return [float((5 * i + k) % 13 - 6) or 1. for i in range(n)], float(k % 7 - 3)


def flatten(p, c='E'):
    if c == 'H':
        # a hyperplane is shown with unit normal and non-negative shift
        u = np.array(p[0] + [p[1]]) / ora.norm(p[0])
        return sorted(np.abs(u).tolist() if p[1] == 0 else (np.sign(p[1]) * u).tolist())
    return sorted(np.ravel(np.array(p[0], dtype=float)).tolist() + np.ravel(np.array(p[1], dtype=float)).tolist())


def run_text(case, rec):
    c, n, k = case
    p = params(c, n, k)
    o = ell(p[1], p[0]) if c == 'E' else hyp(p[0], p[1])
    before = snap(o)
    t = str(o)
    expect(isinstance(t, str) and klass(c).__name__ in t, 'text form of the object: {!r}', t)
    got = sorted(abs(x) for x in numbers(t)) if c == 'H' and p[1] == 0 else sorted(numbers(t))
    expect(len(got) == len(flatten(p, c)) and np.allclose(got, flatten(p, c), atol=1e-6), 'text form shows the numbers {} instead of {}', got, flatten(p, c))
    expect(str(o) == t and snap(o) == before, 'printing changes the object')
    expect('{}'.format(o) == t, 'format of the object')
    same = klass(c).get_copy([o]).flat[0]
    expect(str(same) == t, 'text form of a copy')
    far = ell(p[1], [x + 1 for x in p[0]]) if c == 'E' else hyp(p[0], p[1] + 1)
    expect(str(far) != t and str(o) == t, 'text forms of different objects coincide')
    if c == 'E' and n > 1:
        Ellipsoid.projection([o], np.eye(n)[:, ::-1].copy())
        q = (p[0][::-1], [r[::-1] for r in p[1][::-1]])
        got = [x.tolist() for x in o.parameters()]
        expect(got[0] == q[0] and sorted(numbers(str(o))) == flatten(q), 'text form after a change in place: {}', str(o))
        Ellipsoid.projection([o], np.eye(n)[:, :1].copy())
        expect(sorted(numbers(str(o))) == flatten((q[0][:1], q[1][0][:1])), 'text form after a projection: {}', str(o))
    expect(klass(c).__name__ in str(klass(c)()), 'text form of the empty object')
    rec.outcome((c, n))


CHECK = Check('C32', 'exploration',
              'all combinations of captured values (81 ellipsoids, 9 hyperplanes) x array shapes and containers x names of properties x reductions, under two '
              'configurations; text forms of objects over menus; non-trivial: at least two objects',
              [Stage('queries', arr_cases, run_arr, nontrivial=lambda c: len(c[2]) > 1, setup=reset),
               Stage('rejected', rej_cases, run_rej, setup=reset),
               Stage('text forms', text_cases, run_text, setup=reset)])
