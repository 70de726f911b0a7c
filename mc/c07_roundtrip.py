"""C07: dictionaries, copies and replicas reproduce the objects they came from."""
import itertools

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import (ARRAY_KINDS, DEFAULTS, Ellipsoid, Hyperplane, Properties, arr, close_flat, ell, expect, expect_error, fail, flat, hyp, obj_array,
                 reset, shp_of, snap_ell, snap_hyp, wrap)

ELLS = [None,
        ([3], [[2]]), ([0], [[0]]),
        ([1, -2], [[4, 1], [1, 3]]), ([0, 0], [[0, 0], [0, 0]]), ([1, 0], [[1, 2], [2, 4]]), ([-1e6, 1e-6], [[1e6, 0], [0, 1e-3]]),
        ([1, 2, 3], [[2, 1, 0], [1, 2, 0], [0, 0, 1]]), ([0, 0, 5], [[1, 0, 0], [0, 0, 0], [0, 0, 7]]),
        ([1, 0, 2, 0], ora.diag([4, 3, 2, 1])), ([0, 0, 0, 0, 9], ora.fl(ora.spread(5, [1, 2, 3, 4, 5], 2)[0]))]
HYPS = [None, ([3], 6), ([-2], 4), ([5], 0), ([3, 4], 10), ([3, 4], -10), ([-3, 4], 0), ([0, -2], 0), ([0, -2], 1), ([1, 2, 2], 3),
        ([0, 0, -5], 2), ([-1, 1, 1, -1], -4), ([1, 0, 0, 0, -1e-3], 1e3)]
PROPS = {'abs_tol': 1e-4, 'rel_tol': 1e-2, 'n_plot_2d_points': 30, 'n_plot_3d_points': 40}
NAMES = list(PROPS)


def kw_of(mask):
    return {n: PROPS[n] for i, n in enumerate(NAMES) if mask >> i & 1}


def make(cls, i, kw):
    if cls == 'E':
        if ELLS[i] is None:
            return Ellipsoid(**kw)
        q = arr(ELLS[i][1])
        return Ellipsoid(arr(ELLS[i][0]), (q + q.T) / 2, **kw)
    kw = {k: v for k, v in kw.items() if k in ('abs_tol', 'rel_tol')}
    if HYPS[i] is None:
        return Hyperplane(**kw)
    return hyp(HYPS[i][0], HYPS[i][1], **kw)


def want_props(cls, kw, base=DEFAULTS):
    p = tuple(float(kw.get(n, base[n])) for n in NAMES)
    return p if cls == 'E' else p[:2]


def props(o):
    s = snap_ell(o)[4:] if isinstance(o, Ellipsoid) else snap_hyp(o)[3:]
    return tuple(float(x) for x in s)


def params(o):
    s = snap_ell(o)[:4] if isinstance(o, Ellipsoid) else snap_hyp(o)[:3]
    return s


def klass(cls):
    return Ellipsoid if cls == 'E' else Hyperplane


def canonical(o):
    v, s = o.parameters()
    v = flat(v)
    n = ora.norm(v)
    if n == 0:
        return [0.], 0.
    v, s = [x / n for x in v], float(s) / n
    first = next(x for x in v if abs(x) > 1e-9)
    if s < 0 or (s == 0 and first < 0):
        v, s = [-x for x in v], -s
    return v, s


def check_elem(cls, got, src, want_p, what, via_dict):
    expect(type(got) is type(src), '{}: element of type {}', what, type(got))
    expect(got is not src, '{}: the same object is returned', what)
    if cls == 'H' and via_dict:
        v, s = canonical(src)
        gv, gs = got.parameters()
        close_flat(gv, v, 1e-13, what + ': normal')
        close_flat([gs], [s], 1e-13, what + ': shift')
    else:
        expect(params(got) == params(src), '{}: parameters {} instead of {}', what, params(got), params(src))
    expect(props(got) == want_p, '{}: properties {} instead of {}', what, props(got), want_p)
    k = klass(cls)
    expect(bool(np.all(k.is_equal([got], [src])[0])), '{}: not equal to the original', what)


def one_cases(tier):
    for cls, m in (('E', ELLS), ('H', HYPS)):
        for i in range(len(m)):
            for mask in range(16) if cls == 'E' else range(4):
                for kind in ARRAY_KINDS:
                    yield [cls, i, mask, kind]


def run_one(case, rec):
    cls, i, mask, kind = case
    k = klass(cls)
    kw = kw_of(mask)
    o = make(cls, i, kw)
    before = params(o), props(o)
    wp = want_props(cls, kw)
    expect(props(o) == wp, 'captured properties {} instead of {}', props(o), wp)
    got = k.get_copy(wrap(o, kind))
    expect(got.shape == shp_of(kind), 'copy of {}: shape {}', kind, got.shape)
    check_elem(cls, got.flat[0], o, wp, 'copy', False)
    # later configuration must not leak into copies and dictionaries with properties
    Properties.set_abs_tol(1e-3)
    Properties.set_rel_tol(1e-1)
    Properties.set_n_plot_2d_points(50)
    Properties.set_n_plot_3d_points(60)
    changed = dict(abs_tol=1e-3, rel_tol=1e-1, n_plot_2d_points=50, n_plot_3d_points=60)
    got = k.get_copy(wrap(o, kind))
    check_elem(cls, got.flat[0], o, wp, 'copy after reconfiguration', False)
    d = k.to_dict(wrap(o, kind), True)[0]
    expect(np.shape(d) == shp_of(kind), 'dictionaries of {}: shape {}', kind, np.shape(d))
    back = k.from_dict(d)
    expect(back.shape == shp_of(kind), 'objects from dictionaries of {}: shape {}', kind, back.shape)
    check_elem(cls, back.flat[0], o, wp, 'from dictionary with properties', True)
    d = k.to_dict(wrap(o, kind), False)[0]
    back = k.from_dict(d)
    check_elem(cls, back.flat[0], o, want_props(cls, {}, changed), 'from dictionary without properties', True)
    d = k.to_dict(wrap(o, kind))[0]
    back = k.from_dict(list(d.flatten()))
    expect(back.shape == (1,), 'objects from a list of dictionaries: shape {}', back.shape)
    check_elem(cls, back.flat[0], o, want_props(cls, {}, changed), 'from list of dictionaries', True)
    # dictionaries themselves are not consumed
    check_elem(cls, k.from_dict(d).flat[0], o, want_props(cls, {}, changed), 'from the same dictionary again', True)
    if cls == 'H' and HYPS[i] is not None:
        dd = d.flat[0]
        close_flat([ora.norm(flat(dd['normal_vec']))], [1.], 1e-13, 'norm of the normal in the dictionary')
        expect(float(np.asarray(dd['shift']).flat[0]) >= 0, 'negative shift in the dictionary')
    expect((params(o), props(o)) == before, 'the source object has changed')
    rec.outcome((cls, mask))


SHAPES = [(2,), (1, 2), (2, 1), (3,), (4,), (2, 2), (1, 4), (4, 1), (2, 1, 2), (1, 1, 3)]


def arr_cases(tier):
    for cls in 'EH':
        n = len(ELLS) if cls == 'E' else len(HYPS)
        for shp in SHAPES:
            k = int(np.prod(shp))
            for start in range(n):
                for step in (1, 3):
                    yield [cls, list(shp), [(start + step * j) % n for j in range(k)], [(5 * j + start) % 16 for j in range(k)]]
        for shp in ([0], [0, 2], [2, 0]):
            yield [cls, shp, [], []]


def run_arr(case, rec):
    cls, shp, idx, masks = case
    shp = tuple(shp)
    k = klass(cls)
    src = [make(cls, i, kw_of(m)) for i, m in zip(idx, masks)]
    wps = [want_props(cls, kw_of(m)) for m in masks]
    a = obj_array(src, shp)
    got = k.get_copy(a)
    expect(got.shape == shp, 'copy: shape {} instead of {}', got.shape, shp)
    back = k.from_dict(k.to_dict(a, True)[0])
    expect(back.shape == shp, 'dictionary round trip: shape {} instead of {}', back.shape, shp)
    back2 = k.from_dict(k.to_dict(a)[0])
    expect(back2.shape == shp, 'dictionary round trip: shape {} instead of {}', back2.shape, shp)
    for j, s in enumerate(src):
        check_elem(cls, got.flat[j], s, wps[j], 'copy, element {}'.format(j), False)
        check_elem(cls, back.flat[j], s, wps[j], 'dictionary, element {}'.format(j), True)
        check_elem(cls, back2.flat[j], s, want_props(cls, {}), 'plain dictionary, element {}'.format(j), True)
    if src:
        for f in (list, tuple):
            got = k.get_copy(f(src))
            expect(got.shape == (len(src),), 'copy of a sequence: shape {}', got.shape)
            for j, s in enumerate(src):
                check_elem(cls, got[j], s, wps[j], 'copy of a sequence, element {}'.format(j), False)
    ids = {id(o) for o in list(got.flat) + list(back.flat) + list(back2.flat)}
    expect(len(ids) == got.size + back.size + back2.size, 'the same object occurs twice')
    rec.outcome((cls, shp))


def same_cases(tier):
    """All patterns of repeated objects."""
    for cls in 'EH':
        for shp in ([2], [3], [4], [1, 2], [2, 1], [2, 2], [1, 3], [2, 1, 2]):
            k = int(np.prod(shp))
            for pat in itertools.product(range(3), repeat=k):
                if all(x <= max(pat[:i], default=-1) + 1 for i, x in enumerate(pat)) and len(set(pat)) < k:
                    for start in (1, 3, 7) if tier == 'quick' else range(len(ELLS)):
                        yield [cls, shp, [start + x for x in pat]]


def run_same(case, rec):
    """An object may occur several times in an array: its copies are separate objects all the same."""
    cls, shp, pat = case
    shp = tuple(shp)
    k = klass(cls)
    objs = {i: make(cls, i % (len(ELLS) if cls == 'E' else len(HYPS)), kw_of(5 * i % 16)) for i in set(pat)}
    src = [objs[i] for i in pat]
    a = obj_array(src, shp)
    before = [(params(o), props(o)) for o in src]
    for got, what, via in ((k.get_copy(a), 'copy', False), (k.from_dict(k.to_dict(a, True)[0]), 'dictionary', True)):
        expect(got.shape == shp, '{}: shape {} instead of {}', what, got.shape, shp)
        for j, s in enumerate(src):
            check_elem(cls, got.flat[j], s, props(s), '{}, element {}'.format(what, j), via)
        expect(len({id(x) for x in got.flat}) == len(src), '{}: one object stands for several elements', what)
        if cls == 'E' and len({Ellipsoid.dimension([o]).flat[0] for o in src}) == 1:
            n = int(Ellipsoid.dimension([src[0]]).flat[0])
            if n > 1:
                b = np.eye(n)[:, :n - 1]
                r = Ellipsoid.get_projection(a, b)
                expect(len({id(x) for x in r.flat}) == len(src), 'projections: one object stands for several elements')
                for j, x in enumerate(r.flat):
                    expect(x is not src[j] and Ellipsoid.dimension([x]).flat[0] == n - 1, 'projection, element {}', j)
    if cls == 'E':
        # moving one of the copies in place leaves the others alone
        got = k.get_copy(a)
        n = int(Ellipsoid.dimension([got.flat[0]]).flat[0])
        if n > 1:
            got.flat[0].projection([got.flat[0]], np.eye(n)[:, :1])
            for j, s in enumerate(src):
                if j:
                    expect(params(got.flat[j]) == params(s), 'projecting one copy in place changed element {}', j)
    expect([(params(o), props(o)) for o in src] == before, 'the source objects have changed')
    rec.outcome((cls, len(set(pat))))


def rep_cases(tier):
    for r in (1, 2, 3):
        for v in itertools.product((0, 1, 2, 3), repeat=r):
            if int(np.prod(v)) <= (12 if tier == 'quick' else 27):
                for form in ('list', 'tuple', 'int', 'float', 'row', 'col'):
                    yield ['ok', list(v), form]
    for v in itertools.product((1, 2), repeat=4):
        yield ['ok', list(v), 'list']
    bad = [[-1], [2, -1], [-2, -3], [1.5], [2, 0.5], [float('nan'), 1], ['a'], ['2', '3'], [], [[1, 2], [3, 4]], [1j], [2, 1 + 1j], [None, 1]]
    for b in range(len(bad)):
        yield ['bad', b]
    run_rep.bad = bad


def run_rep(case, rec):
    if case[0] == 'bad':
        list(rep_cases('quick'))
        b = run_rep.bad[case[1]]
        for o in (ell([[2]], [1]), hyp([1, 2], 3), Ellipsoid()):
            expect_error(lambda: o.rep_mat(b), 'wrongInput', 'size vector {!r}'.format(b))
            if np.ndim(b) != 2:
                expect_error(lambda: type(o).from_rep_mat(*o.parameters(), b) if not isinstance(o, Ellipsoid) or b else o.rep_mat(b),
                             'wrongInput', 'size vector {!r}'.format(b))
        rec.outcome('rejected')
        return
    _, v, form = case
    shp = tuple(v)
    vec = {'list': v, 'tuple': tuple(v), 'int': np.array(v), 'float': np.array(v, dtype=np.float64), 'row': np.array([v]),
           'col': np.array(v).reshape(-1, 1)}[form]
    kw = {'abs_tol': 1e-4, 'n_plot_2d_points': 30, 'rel_tol': 1e-2}
    e = ell([[2, 1], [1, 3]], [1, -1], **kw)
    h = hyp([3, -4], 2, abs_tol=1e-4, rel_tol=1e-2)
    Properties.set_abs_tol(0.25)
    Properties.set_n_plot_3d_points(77)
    em = Ellipsoid()
    for o, got, cls in ((e, e.rep_mat(vec), 'E'), (h, h.rep_mat(vec), 'H'), (em, em.rep_mat(vec), 'E')):
        expect(isinstance(got, np.ndarray) and got.shape == shp, 'replication into {}: shape {}', v, np.shape(got))
        for x in got.flat:
            check_elem(cls, x, o, props(o), 'replica', False)
        expect(len({id(x) for x in got.flat}) == got.size, 'one object is used for several replicas')
    got = Ellipsoid.from_rep_mat(*e.parameters(), vec, **kw)
    expect(got.shape == shp, 'ellipsoids from a size vector {}: shape {}', v, got.shape)
    ref = ell([[2, 1], [1, 3]], [1, -1], **kw)
    for x in got.flat:
        check_elem('E', x, ref, props(ref), 'replica from parameters', False)
    got = Ellipsoid.from_rep_mat(e.get_shape_mat(), vec)
    ref = ell([[2, 1], [1, 3]])
    expect(got.shape == shp, 'ellipsoids from a size vector {}: shape {}', v, got.shape)
    for x in got.flat:
        check_elem('E', x, ref, props(ref), 'replica from the shape matrix', False)
    got = Hyperplane.from_rep_mat(*h.parameters(), vec, abs_tol=1e-4, rel_tol=1e-2)
    expect(got.shape == shp, 'hyperplanes from a size vector {}: shape {}', v, got.shape)
    for x in got.flat:
        check_elem('H', x, h, props(h), 'replica from parameters', False)
    got = Ellipsoid.from_rep_mat(vec)
    expect(got.shape == shp and all(bool(np.all(Ellipsoid.is_empty([x]))) for x in got.flat), 'empty ellipsoids from a size vector {}', v)
    rec.outcome(form)


CHECK = Check('C07', 'exploration',
              'every object of the menu x all property combinations x all container forms, arrays of all shapes with heterogeneous objects, '
              'all size vectors over {0..3} up to length 3 in all forms and malformed ones; non-trivial: the object is not empty',
              generic('C07') +
              [Stage('single', one_cases, run_one, nontrivial=lambda c: c[1] > 0, setup=reset),
               Stage('arrays', arr_cases, run_arr, setup=reset),
               Stage('repeated', same_cases, run_same, setup=reset),
               Stage('replicas', rep_cases, run_rep, setup=reset)])
