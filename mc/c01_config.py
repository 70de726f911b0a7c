"""C01: the global configuration behaves as a plain last-write-wins map, over all histories."""
import itertools
import math
from collections import deque

from core import Check, Stage
from lib import DEFAULTS, Properties, Ellipsoid, Hyperplane, arr, expect, fail

SETTERS = {
    'is_verbose': ('set_is_verbose', [True, False]),
    'abs_tol': ('set_abs_tol', [1e-3, 1e-6]),
    'rel_tol': ('set_rel_tol', [0.25, 1e-5]),
    'n_plot_2d_points': ('set_n_plot_2d_points', [17, 200]),
    'n_plot_3d_points': ('set_n_plot_3d_points', [31, 200]),
    'n_time_grid_points': ('set_n_time_grid_points', [5, 250]),
}
GETTERS = {
    'version': 'get_version', 'is_verbose': 'get_is_verbose', 'abs_tol': 'get_abs_tol', 'rel_tol': 'get_rel_tol',
    'reg_tol': 'get_reg_tol', 'n_time_grid_points': 'get_n_time_grid_points',
    'ode_solver_name': 'get_ode_solver_name', 'is_ode_norm_control': 'get_is_ode_norm_control',
    'is_enabled_ode_solver_options': 'get_is_enabled_ode_solver_options',
    'n_plot_2d_points': 'get_n_plot_2d_points', 'n_plot_3d_points': 'get_n_plot_3d_points'}
VARIANT = dict(DEFAULTS, version='9.9', abs_tol=0.5, rel_tol=0.125, reg_tol=0.0625, n_plot_2d_points=7,
               n_plot_3d_points=9, n_time_grid_points=11, ode_solver_name='ode23', is_verbose=True,
               is_enabled_ode_solver_options=True)

OPS = [['init']] + [['set', n, v] for n, (_, vals) in SETTERS.items() for v in vals] + \
      [['replace'], ['snapmut'], ['parse'], ['make'], ['check']]


def apply_real(op):
    if op[0] == 'init':
        Properties.init()
    elif op[0] == 'set':
        getattr(Properties, SETTERS[op[1]][0])(op[2])
    elif op[0] == 'replace':
        Properties.set_conf_repo_mgr(dict(VARIANT))
    elif op[0] == 'snapmut':
        d = Properties.get_prop_dict()
        for k in list(d):
            d[k] = 'overwritten'
        d.clear()
    elif op[0] == 'parse':
        Properties.parse_prop({'abs_tol': 0.75, 'n_plot_3d_points': 3, 'x': 1}, ['abs_tol', 'n_plot_3d_points', 'rel_tol'])
    elif op[0] == 'make':
        Ellipsoid(arr([[2, 0], [0, 1]]), abs_tol=0.0625, rel_tol=0.75, n_plot_2d_points=4, n_plot_3d_points=6)
        Hyperplane(arr([1, 0]), 1., abs_tol=0.0625, rel_tol=0.75)
    elif op[0] == 'check':
        Properties.check_settings()


def apply_model(m, op):
    if op[0] == 'init':
        return dict(DEFAULTS)
    if op[0] == 'set':
        m = dict(m)
        m[op[1]] = op[2]
        return m
    if op[0] == 'replace':
        return dict(VARIANT)
    return m


def check_all(m, rec):
    for k, g in GETTERS.items():
        v = getattr(Properties, g)()
        if v != m[k] or type(v) is not type(m[k]):
            fail('after the history, {}() returns {!r}, the last value written is {!r}'.format(g, v, m[k]))
    d = Properties.get_prop_dict()
    expect(d == m, 'snapshot {!r} differs from the store {!r}', d, m)
    r = Properties.get_conf_repo_mgr()
    expect(r == m, 'configuration manager {!r} differs from the store {!r}', r, m)
    rec.state(tuple(sorted((k, repr(v)) for k, v in m.items())))


def run_history(ops, rec):
    Properties.init()
    m = dict(DEFAULTS)
    check_all(m, rec)
    for op in ops:
        apply_real(op)
        m = apply_model(m, op)
        rec.step()
        check_all(m, rec)
    rec.trace()
    return m


def hist_cases(tier):
    depth = 3 if tier == 'quick' else 4
    for k in range(depth + 1):
        for ops in itertools.product(OPS, repeat=k):
            yield list(ops)


def bfs_cases(tier):
    # one case per first operation: the graph reachable after it
    return [[op] for op in [['init'], ['replace']]]


def run_bfs(case, rec):
    """Breadth-first search of the whole reachable store graph; every edge is executed on the real store
    through the shortest history that reaches its source."""
    def key(m):
        return tuple(sorted((k, repr(v)) for k, v in m.items()))
    m0 = apply_model(dict(DEFAULTS), case[0])
    seen = {key(m0)}
    queue = deque([(m0, list(case))])
    while queue:
        m, hist = queue.popleft()
        for op in OPS:
            if len(op) == 1 and op[0] == 'replace' and case[0][0] == 'init':
                continue        # that component is explored by the other case
            Properties.init()
            for h in hist:
                apply_real(h)
            apply_real(op)
            m2 = apply_model(m, op)
            rec.step()
            rec.trace()
            check_all(m2, rec)
            if key(m2) not in seen:
                seen.add(key(m2))
                queue.append((m2, hist + [op]))


def snapshot_cases(tier):
    return [[a, b] for a in OPS for b in OPS]


def run_snapshot(case, rec):
    """Snapshots taken between operations never change afterwards, and never feed back."""
    Properties.init()
    m = dict(DEFAULTS)
    snaps = []
    for op in case:
        snaps.append((Properties.get_prop_dict(), dict(m)))
        apply_real(op)
        m = apply_model(m, op)
        rec.step()
        for got, want in snaps:
            expect(got == want, 'a snapshot taken earlier changed after {}: {!r} != {!r}', op, got, want)
    for got, _ in snaps:
        for k in got:
            got[k] = None
    check_all(m, rec)
    rec.trace()


VALUES = {
    'is_verbose': [True, False],
    'abs_tol': [1e-6, math.nextafter(1e-6, 1.) if hasattr(math, 'nextafter') else 1.0000000000000002e-06, 1e-6 * (1 + 1e-9), 1.001e-6, 1e-5, 1e-8, 2e-8, 1e-15, 2e-15, 1e-300,
                5e-324, 1., 1e10],
    'n_plot_2d_points': [200, 201, 1, 2, 199, 10 ** 9, 10 ** 9 + 1, 3],
}
VALUES['rel_tol'] = VALUES['abs_tol'] + [1e-5 * (1 + 1e-9), 1e-5 + 1e-12]
VALUES['n_plot_3d_points'] = VALUES['n_plot_2d_points']
VALUES['n_time_grid_points'] = VALUES['n_plot_2d_points'] + [250, 251]


def value_cases(tier):
    for k, vals in VALUES.items():
        m = len(vals)
        for i in range(m):
            for j in range(m):
                yield [k, [i, j]]
                if tier != 'quick':
                    for l in range(m):
                        yield [k, [i, j, l]]


def run_values(case, rec):
    """Values close to each other, tiny, huge, written one after another."""
    k, ix = case
    for first in (['init'], ['replace']):
        Properties.init()
        apply_real(first)
        m = apply_model(dict(DEFAULTS), first)
        for i in ix:
            v = VALUES[k][i]
            getattr(Properties, SETTERS[k][0])(v)
            m[k] = v
            for n, g in GETTERS.items():
                got = getattr(Properties, g)()
                expect(got == m[n] and isinstance(got, bool) == isinstance(m[n], bool), 'after writing {!r} to {}, {}() returns {!r} instead of {!r}', v, k, g, got, m[n])
            d = Properties.get_prop_dict()
            expect(d == m, 'after writing {!r} to {} the snapshot is {!r}', v, k, d)
            d[k] = None
            rec.step()
            rec.state(tuple(sorted((n, repr(x)) for n, x in m.items())))
        e = Ellipsoid(arr([[2, 0], [0, 1]]))
        if k in ('abs_tol', 'rel_tol'):
            expect(float(Ellipsoid.get_property([e], k, None).flat[0]) == float(m[k]), 'an ellipsoid captures {!r} after {!r} was written to {}', Ellipsoid.get_property([e], k, None), m[k], k)
    rec.trace()


CHECK = Check('C01', 'model_checking',
              'every history of store operations up to the depth, and every edge of the reachable store graph; '
              'a history is non-trivial when it contains at least one operation that writes',
              [Stage('histories', hist_cases, run_history,
                     nontrivial=lambda c: any(o[0] in ('set', 'init', 'replace') for o in c)),
               Stage('graph', bfs_cases, run_bfs),
               Stage('values', value_cases, run_values),
               Stage('snapshots', snapshot_cases, run_snapshot)])
