"""C02: explicit properties win over the configuration, are validated, and leave the caller's arguments alone."""
import copy
import itertools

from core import Check, Stage
from lib import (DEFAULTS, Properties, Ellipsoid, Hyperplane, arr, expect, expect_error, fail, reset)

NAMES = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
EXPL = {'version': 'mine', 'is_verbose': True, 'abs_tol': 0.5, 'rel_tol': 0.25, 'reg_tol': 0.125,
        'ode_solver_name': 'ode23', 'is_ode_norm_control': False, 'is_enabled_ode_solver_options': True,
        'n_plot_2d_points': 17, 'n_plot_3d_points': 33., 'n_time_grid_points': 65}
GLOB = {'version': 'glob', 'is_verbose': False, 'abs_tol': 1e-4, 'rel_tol': 1e-2, 'reg_tol': 1e-3,
        'ode_solver_name': 'ode113', 'is_ode_norm_control': True, 'is_enabled_ode_solver_options': False,
        'n_plot_2d_points': 8, 'n_plot_3d_points': 10, 'n_time_grid_points': 12}
MORE_VALID = {'ode_solver_name': ['ode45', 'ode23', 'ode113'], 'abs_tol': [1e-300, 1e300, 1.], 'rel_tol': [1e-12, 5.],
              'reg_tol': [1e-9, 2.], 'n_plot_2d_points': [1, 100.], 'n_plot_3d_points': [2, 1000.],
              'n_time_grid_points': [3, 4.], 'is_verbose': [True, False], 'is_ode_norm_control': [True, False],
              'is_enabled_ode_solver_options': [True, False], 'version': ['', '2.1']}
INVALID = {'version': [3, None, 2.1], 'is_verbose': [1, 'on', None, 0.], 'abs_tol': [0., -1e-9, 'x', None, float('nan')],
           'rel_tol': [0., -1., 'x', None, float('nan')], 'reg_tol': [0., -1., 'x', None, float('nan')],
           'ode_solver_name': ['ode99', '', 5, None], 'is_ode_norm_control': ['on', 1, None],
           'is_enabled_ode_solver_options': ['yes', 0, None], 'n_plot_2d_points': [1.5, '10', None],
           'n_plot_3d_points': [2.25, '10', None], 'n_time_grid_points': [0.5, '10', None]}
EXTRA = {'foo': 1, 'center': None}


def set_config(name):
    Properties.init()
    if name == 'glob':
        Properties.set_conf_repo_mgr(dict(GLOB))
    return dict(GLOB) if name == 'glob' else dict(DEFAULTS)


def lists(tier):
    yield None
    for k in (1, 2):
        for p in itertools.permutations(NAMES, k):
            yield list(p)
    four = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']
    for k in (3, 4):
        for p in itertools.permutations(four, k):
            yield list(p)
    yield list(reversed(NAMES))
    yield NAMES[3:] + NAMES[:3]
    if tier != 'quick':
        for p in itertools.permutations(NAMES, 3):
            yield list(p)


def parse_cases(tier):
    for needed in lists(tier):
        eff = NAMES if needed is None else needed
        masks = range(1 << len(eff)) if len(eff) <= 4 else [0, 1, 2, 5, (1 << len(eff)) - 1, 0b10101010101]
        for mask in masks:
            for conf in ('default', 'glob'):
                for other in (0, 1):
                    yield [needed, mask, conf, other]


def run_parse(case, rec):
    needed, mask, conf, other = case
    m = set_config(conf)
    eff = NAMES if needed is None else needed
    args = {n: EXPL[n] for i, n in enumerate(eff) if mask >> i & 1}
    rest = dict(EXTRA) if other else {}
    if other:
        # known names that were not asked for stay in the remainder
        for n in NAMES:
            if n not in eff:
                rest[n] = EXPL[n]
    args.update(rest)
    before = copy.deepcopy(args)
    needed_arg = None if needed is None else list(needed)
    vals, left = Properties.parse_prop(args, needed_arg)
    rec.step()
    expect(args == before, 'the caller\'s dictionary was changed: {!r} -> {!r}', before, args)
    expect(needed_arg == needed, 'the caller\'s list of names was changed')
    want = [EXPL[n] if mask >> i & 1 else m[n] for i, n in enumerate(eff)]
    expect(list(vals) == want, 'names {}: values {!r}, expected {!r}', eff, vals, want)
    expect(left == rest, 'remaining arguments {!r}, expected {!r}', left, rest)
    expect(Properties.get_prop_dict() == m, 'parsing changed the global configuration')


def valid_cases(tier):
    for n in NAMES:
        for v in MORE_VALID[n]:
            yield [n, v, True]
        for i in range(len(INVALID[n])):
            yield [n, i, False]


def run_valid(case, rec):
    n, v, ok = case
    for needed in ([n], [n, 'abs_tol'], ['abs_tol', n], ['n_plot_2d_points', n, 'version'], None):
        if needed is not None and len(set(needed)) != len(needed):
            continue
        for src in ('explicit', 'global'):
            m = set_config('glob')
            val = v if ok else INVALID[n][v]
            args = {}
            if src == 'explicit':
                args[n] = val
            else:
                conf = dict(GLOB)
                conf[n] = val
                Properties.set_conf_repo_mgr(conf)
                m = conf
            if ok:
                vals, left = Properties.parse_prop(args, needed)
                eff = NAMES if needed is None else needed
                want = [val if x == n else m[x] for x in eff]
                expect(list(vals) == want, 'values {!r}, expected {!r}', vals, want)
                expect(left == {}, 'unexpected remainder {!r}', left)
            else:
                expect_error(lambda: Properties.parse_prop(args, needed), 'wrongInput',
                             'property {} = {!r} from the {} source'.format(n, val, src))
                # an explicit valid value hides an invalid configured one
                if src == 'global':
                    vals, _ = Properties.parse_prop({n: EXPL[n]}, [n])
                    expect(list(vals) == [EXPL[n]], 'explicit value lost: {!r}', vals)
            rec.step()


def unknown_cases(tier):
    for pos in range(3):
        for bad in ('nope', 'absTol', 'abs_tol ', ''):
            for k in (0, 1, 2):
                base = ['abs_tol', 'n_plot_2d_points'][:k]
                lst = base[:pos] + [bad] + base[pos:]
                yield lst


def run_unknown(case, rec):
    set_config('glob')
    expect_error(lambda: Properties.parse_prop({'abs_tol': 0.5}, list(case)), 'wrongInput', 'names {}'.format(case))
    rec.step()


KW = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']


def obj_cases(tier):
    for mask in range(16):
        for conf in ('default', 'glob'):
            for kind in ('ell_full', 'ell_shape', 'ell_empty', 'ell_rep', 'hyp', 'hyp_empty', 'hyp_rep'):
                yield [mask, conf, kind]


def run_obj(case, rec):
    """The same rule for the optional arguments of the object constructors."""
    mask, conf, kind = case
    m = set_config(conf)
    kw = {n: EXPL[n] for i, n in enumerate(KW) if mask >> i & 1}
    before = dict(kw)
    q, c, v = arr([[2, 1], [1, 3]]), arr([1, -1]), arr([3, 4])
    if kind == 'ell_full':
        objs = [Ellipsoid(c, q, **kw)]
    elif kind == 'ell_shape':
        objs = [Ellipsoid(q, **kw)]
    elif kind == 'ell_empty':
        objs = [Ellipsoid(**kw)]
    elif kind == 'ell_rep':
        objs = list(Ellipsoid.from_rep_mat(c, q, (2, 2), **kw).flatten())
        expect(len(objs) == 4, 'replication produced {} objects instead of 4', len(objs))
    elif kind == 'hyp':
        objs = [Hyperplane(v, 5., **kw)]
    elif kind == 'hyp_empty':
        objs = [Hyperplane(**kw)]
    else:
        objs = list(Hyperplane.from_rep_mat(v, 5., (3,), **kw).flatten())
        expect(len(objs) == 3, 'replication produced {} objects instead of 3', len(objs))
    expect(kw == before, 'keyword arguments were changed')
    cls = Ellipsoid if kind.startswith('ell') else Hyperplane
    # later changes of the configuration do not reach the objects
    Properties.set_conf_repo_mgr(dict(GLOB, abs_tol=0.9, rel_tol=0.8, n_plot_2d_points=77, n_plot_3d_points=78))
    for o in objs:
        for i, n in enumerate(KW):
            if cls is Hyperplane and i > 1:
                continue
            want = EXPL[n] if mask >> i & 1 else m[n]
            got = cls.get_property([o], n, None)
            rec.step()
            expect(got.shape == (1,) and float(got[0]) == float(want), '{} of the object is {!r}, expected {!r}', n, got, want)


CHECK = Check('C02', 'exploration',
              'all ordered lists of up to two of the eleven property names (and all orders of the four object properties), '
              'times every subset given explicitly, times two configurations and extra arguments; all valid/invalid values '
              'of every property from both sources; non-trivial when at least one value is explicit or invalid',
              [Stage('parse', parse_cases, run_parse, nontrivial=lambda c: c[1] != 0 or c[3]),
               Stage('values', valid_cases, run_valid),
               Stage('unknown', unknown_cases, run_unknown),
               Stage('objects', obj_cases, run_obj, nontrivial=lambda c: c[0] != 0)])
