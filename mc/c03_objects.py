"""C03: objects own their data: over every history, only in-place projection changes an object, and only that one.

A pure model (exact rational geometry, captured tolerances, configuration) is explored first, without the code under
test; every edge of its state graph is then replayed on the real objects, all observers being compared after every
action.  A second, stateless stage runs every action sequence up to a depth without merging states, so that hidden
state (caches, shared buffers) in the implementation cannot escape through state merging."""
import itertools
from collections import deque
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage, Violation
from lib import (DEFAULTS, Ellipsoid, Hyperplane, Properties, arr, close, expect, expect_error, fail, flat, snap)

CFG = {
    'init': dict(DEFAULTS),
    'one': dict(DEFAULTS, abs_tol=1e-3, n_plot_2d_points=20),
    'two': dict(DEFAULTS, rel_tol=0.5, n_plot_3d_points=13, is_verbose=True),
}
EXPL = (1e-4, 1e-2, 12, 14)
C0 = (Fr(1), Fr(1, 2))
Q0 = ((Fr(4), Fr(1)), (Fr(1), Fr(3)))
PERM = ((0, 1), (1, 0))


def tol_of(cfg):
    d = CFG[cfg]
    return d['abs_tol'], d['rel_tol'], d['n_plot_2d_points'], d['n_plot_3d_points']


def tt(m):
    return tuple(tuple(r) for r in m)


def m_perm(o):
    c, q, t = o
    return (c[1], c[0]), ((q[1][1], q[1][0]), (q[0][1], q[0][0])), t


def m_polar(o):
    c, q, _ = o
    qi = ora.inv(q)
    k = 1 - ora.quad(qi, c)
    pc = ora.scal(-1 / k, ora.mv(qi, c))
    pq = ora.madd(ora.mscal(1 / k, qi), ora.outer(pc, pc))
    return tuple(pc), tt(pq), '?'


E_ACTIONS = ['new', 'new_explicit', 'new_shape', 'copy', 'rep', 'dict', 'dict_plain', 'neg', 'polar', 'getproj', 'proj',
             'projboth', 'swap', 'one', 'two', 'init', 'mutate', 'fail', 'query']


def e_model(state, act):
    """state = (cfg, A, B); None when the action is not enabled."""
    cfg, a, b = state
    if act == 'new':
        return cfg, (C0, Q0, tol_of(cfg)), b
    if act == 'new_explicit':
        return cfg, (C0, Q0, EXPL), b
    if act == 'new_shape':
        return cfg, ((Fr(0), Fr(0)), Q0, tol_of(cfg)), b
    if act in ('copy', 'rep', 'dict'):
        return cfg, a, a
    if act == 'dict_plain':
        return cfg, a, (a[0], a[1], tol_of(cfg))
    if act == 'neg':
        return cfg, a, (tuple(-x for x in a[0]), a[1], '?')
    if act == 'polar':
        return cfg, a, m_polar(a)
    if act == 'getproj':
        return cfg, a, m_perm(a)
    if act == 'proj':
        return cfg, m_perm(a), b
    if act == 'projboth':
        return cfg, m_perm(a), m_perm(b)
    if act == 'swap':
        return cfg, b, a
    if act in CFG:
        return act, a, b
    return state


def scramble(x):
    if isinstance(x, np.ndarray) and x.dtype != object and x.flags.writeable:
        x[...] = -77.


class EWorld:
    dim = 2

    def __init__(self):
        Properties.set_conf_repo_mgr(dict(CFG['init']))
        self.held = []
        self.a = self.new(C0, Q0)
        self.b = self.new(C0, Q0)
        self.tol = {}

    def new(self, c, q, **kw):
        q = arr(q)
        self.held.append(q)
        if c is None:
            return Ellipsoid(q, **kw)
        c = arr(c)
        self.held.append(c)
        return Ellipsoid(c, q, **kw)

    def act(self, act):
        a, b = self.a, self.b
        if act == 'new':
            self.a = self.new(C0, Q0)
        elif act == 'new_explicit':
            self.a = self.new(C0, Q0, abs_tol=EXPL[0], rel_tol=EXPL[1], n_plot_2d_points=EXPL[2], n_plot_3d_points=EXPL[3])
        elif act == 'new_shape':
            self.a = self.new(None, Q0)
        elif act == 'copy':
            r = Ellipsoid.get_copy([a])
            self.b = r.flat[0]
            expect(self.b is not a, 'a copy is the same object')
        elif act == 'rep':
            r = a.rep_mat((2, 2))
            expect(r.shape == (2, 2) and len({id(x) for x in r.flat}) == 4 and all(x is not a for x in r.flat),
                   'replication does not produce independent objects')
            Ellipsoid.projection(r[:1, :], arr([[1], [0]]))     # in-place change of two replicas
            self.b = r[1, 1]
            for shp in ((1,), (1, 1), [1], (1, 3), (2, 1, 1)):          # replicas projected in place
                r = a.rep_mat(shp)
                expect(r.shape == tuple(shp) and all(x is not a for x in r.flat), 'a replica is the object itself')
                r1 = Ellipsoid.get_copy(r)
                Ellipsoid.projection(r, arr([[1], [1]]))
                Ellipsoid.projection(r1, arr([[0], [1]]))
        elif act == 'dict':
            d = Ellipsoid.to_dict([a], True)[0]
            self.b = Ellipsoid.from_dict(d).flat[0]
            for v in d.flat[0].values():
                scramble(v)
        elif act == 'dict_plain':
            d = Ellipsoid.to_dict(np.array([a]))[0]
            self.b = Ellipsoid.from_dict(d).flat[0]
            for v in d.flat[0].values():
                scramble(v)
        elif act == 'neg':
            self.b = -a
        elif act == 'polar':
            self.b = Ellipsoid.polar([a]).flat[0]
        elif act == 'getproj':
            p = arr(PERM)
            r = Ellipsoid.get_projection([a], p)
            self.b = r.flat[0]
            scramble(p)
        elif act == 'proj':
            p = arr(PERM)
            r = Ellipsoid.projection([a], p)
            expect(r.flat[0] is a, 'in-place projection returned another object')
            scramble(p)
        elif act == 'projboth':
            if a is b:
                fail('two slots hold one object')
            Ellipsoid.projection([a, b], arr(PERM))
        elif act == 'swap':
            self.a, self.b = b, a
        elif act in CFG:
            Properties.set_conf_repo_mgr(dict(CFG[act])) if act != 'init' else Properties.init()
        elif act == 'mutate':
            for x in self.held:
                scramble(x)
            for x in (a.get_center_vec(), a.get_shape_mat()) + tuple(a.double()) + tuple(a.parameters()):
                scramble(x)
            d, names, descr, funcs = Ellipsoid.to_dict([a], True)
            for v in d.flat[0].values():
                scramble(v)
            d.flat[0].clear()
            names.clear()
            descr.clear()
            funcs.clear()
            for x in (Ellipsoid.get_abs_tol([a], None), Ellipsoid.get_n_plot_2d_points([a]), Ellipsoid.dimension([a])):
                scramble(x)
            for r in (Ellipsoid.rho(a, arr([[1, 0], [0, 1]])), a.get_rho_boundary(4)):
                for x in r:
                    scramble(x)
            for r in (a.get_boundary(4, True)):
                scramble(r)
        elif act == 'fail':
            other = Ellipsoid(arr([[1]]))
            flatb = Ellipsoid(arr([1, 1]), arr([[1, 0], [0, 0]]))
            bad = arr([[1, 1], [0, 1]])
            expect_error(lambda: Ellipsoid.projection([a, b], bad), 'wrongInput', 'non-orthogonal basis')
            expect_error(lambda: Ellipsoid.projection([a, other], arr(PERM)), 'wrongInput', 'mixed dimensions')
            expect_error(lambda: Ellipsoid.projection([a, b, other], arr([[1], [0]])), 'wrongInput', 'mixed dimensions')
            expect_error(lambda: Ellipsoid.projection(a, arr([[1, 0, 0], [0, 1, 0]])), 'wrongInput', 'too many vectors')
            expect_error(lambda: Ellipsoid(arr([1, 2]), arr([[1, 2], [3, 4]])), 'wrongInput', 'asymmetric shape')
            expect_error(lambda: Ellipsoid.polar([a, flatb]), 'degenerateEllipsoid', 'polar of a flat ellipsoid')
            expect_error(lambda: Ellipsoid.rho([a], arr([[1], [0], [0]])), 'wrongInput', 'direction of a wrong size')
            expect_error(lambda: Ellipsoid.is_internal([a, b], arr([[1], [0], [0]]), 'u'), 'wrongSizes', 'point of a wrong size')
            expect_error(lambda: a.rep_mat((2.5,)), 'wrongInput', 'fractional size')
        elif act == 'query':
            p = arr([[1, 2], [0, 1]])
            Ellipsoid.rho([a, b], arr([[1], [0]]))
            Ellipsoid.is_internal([a, b], p, 'i')
            a.is_bigger(b)
            Ellipsoid.is_equal([a], [b], True)
            Ellipsoid.minksum_ea([a, b], p)
            Ellipsoid.minksum_ia([a, b], p)
            for f in (Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate,
                      Ellipsoid.is_empty, Ellipsoid.uminus):
                f([a, b])
            a.get_boundary_by_factor(0.25)
            a.get_rho_boundary_by_factor(0.25)
            str(a)
            a == b

    def observe(self, which, mod):
        o = self.a if which == 'A' else self.b
        c, q, t = mod
        close(o.get_center_vec(), c, 1e-8, 'center of ' + which)
        close(o.get_shape_mat(), q, 1e-8, 'shape matrix of ' + which)
        one = np.array([o])
        got = tuple(float(Ellipsoid.get_property(one, n, None).flat[0])
                    for n in ('abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points'))
        if t == '?':
            t = got
        expect(got == tuple(float(x) for x in t), 'properties of {} are {}, captured at creation: {}', which, got, t)
        expect(int(Ellipsoid.dimension([o]).flat[0]) == 2, 'dimension of {} changed', which)
        return c, q, t


# ------------------------------------------------------------------------------------------------ hyperplanes
V0 = (Fr(3), Fr(-4))
S0 = Fr(-5)
H_ACTIONS = ['new', 'new_explicit', 'copy', 'rep', 'dict', 'dict_plain', 'neg', 'swap', 'one', 'two', 'init', 'mutate',
             'fail', 'query']


def canon(v, s):
    n = Fr(ora.norm(v)).limit_denominator(1000)
    if s < 0 or (s == 0 and [x for x in v if x][0] < 0):
        n = -n
    return tuple(x / n for x in v), s / n


def h_model(state, act):
    cfg, a, b = state
    t2 = tol_of(cfg)[:2]
    if act == 'new':
        return cfg, (V0, S0, t2), b
    if act == 'new_explicit':
        return cfg, ((Fr(0), Fr(2)), Fr(1), EXPL[:2]), b
    if act in ('copy', 'rep'):
        return cfg, a, a
    if act == 'dict':
        return cfg, a, canon(a[0], a[1]) + (a[2],)
    if act == 'dict_plain':
        return cfg, a, canon(a[0], a[1]) + (t2,)
    if act == 'neg':
        return cfg, a, (tuple(-x for x in a[0]), -a[1], '?')
    if act == 'swap':
        return cfg, b, a
    if act in CFG:
        return act, a, b
    return state


class HWorld:
    def __init__(self):
        Properties.set_conf_repo_mgr(dict(CFG['init']))
        self.held = []
        self.a = self.new(V0, S0)
        self.b = self.new(V0, S0)

    def new(self, v, s, **kw):
        v = arr(v)
        self.held.append(v)
        return Hyperplane(v, float(s), **kw)

    def act(self, act):
        a, b = self.a, self.b
        if act == 'new':
            self.a = self.new(V0, S0)
        elif act == 'new_explicit':
            self.a = self.new((0, 2), 1, abs_tol=EXPL[0], rel_tol=EXPL[1])
        elif act == 'copy':
            self.b = Hyperplane.get_copy([a]).flat[0]
            expect(self.b is not a, 'a copy is the same object')
        elif act == 'rep':
            r = a.rep_mat((2, 2))
            expect(len({id(x) for x in r.flat}) == 4, 'replicas are not independent objects')
            self.b = r[1, 0]
            for shp in ((1,), (1, 1), [1]):
                expect(a.rep_mat(shp).flat[0] is not a, 'a replica is the object itself')
        elif act in ('dict', 'dict_plain'):
            d = Hyperplane.to_dict([a], act == 'dict')[0]
            self.b = Hyperplane.from_dict(d).flat[0]
            for v in d.flat[0].values():
                scramble(v)
        elif act == 'neg':
            self.b = -a
        elif act == 'swap':
            self.a, self.b = b, a
        elif act in CFG:
            Properties.set_conf_repo_mgr(dict(CFG[act])) if act != 'init' else Properties.init()
        elif act == 'mutate':
            for x in self.held:
                scramble(x)
            for x in (a.parameters()[0], a.double()[0]):
                scramble(x)
            d, names, descr, funcs = Hyperplane.to_dict([a], True)
            for v in d.flat[0].values():
                scramble(v)
            d.flat[0].clear()
            names.clear()
            scramble(Hyperplane.get_abs_tol([a], None))
        elif act == 'fail':
            other = Hyperplane(arr([1, 2, 3]), 1.)
            expect_error(lambda: Hyperplane.contains([a, other], arr([[1], [2]])), 'wrongSizes', 'mixed dimensions')
            expect_error(lambda: Hyperplane.contains(a, arr([[1], [2], [3]])), 'wrongSizes', 'point of a wrong size')
            expect_error(lambda: Hyperplane.is_parallel([a, b], [a, b, a]), 'wrongSizes', 'array sizes')
            expect_error(lambda: Hyperplane(arr([1, float('nan')])), 'wrongInput', 'nan normal')
        elif act == 'query':
            Hyperplane.is_parallel([a, b], [b, a])
            Hyperplane.contains([a, b], arr([[1], [2]]))
            Hyperplane.is_equal([a], [b], True)
            Hyperplane.uminus([a, b])
            Hyperplane.dimension([a, b])
            Hyperplane.is_empty([a, b])
            str(a)
            a == b

    def observe(self, which, mod):
        o = self.a if which == 'A' else self.b
        v, s, t = mod
        gv, gs = o.parameters()
        close(gv, v, 1e-12, 'normal of ' + which)
        close_s = abs(float(gs) - float(s)) <= 1e-12 * 5
        expect(close_s, 'shift of {} is {}, expected {}', which, gs, s)
        one = np.array([o])
        got = tuple(float(Hyperplane.get_property(one, n, None).flat[0]) for n in ('abs_tol', 'rel_tol'))
        if t == '?':
            t = got
        expect(got == tuple(float(x) for x in t), 'tolerances of {} are {}, captured at creation: {}', which, got, t)
        return v, s, t


FAM = {'E': (EWorld, e_model, E_ACTIONS, ('init', (C0, Q0, tol_of('init')), (C0, Q0, tol_of('init')))),
       'H': (HWorld, h_model, H_ACTIONS, ('init', (V0, S0, tol_of('init')[:2]), (V0, S0, tol_of('init')[:2])))}


def run_hist(fam, acts, rec, observe_all=True):
    world_cls, model, _, state = FAM[fam]
    w = world_cls()
    if observe_all:
        w.observe('A', state[1])
        w.observe('B', state[2])
    for i, act in enumerate(acts):
        w.act(act)
        state = model(state, act)
        rec.step()
        if observe_all or i == len(acts) - 1 or '?' in (state[1][2], state[2][2]):
            try:
                cfg = Properties.get_prop_dict()
                expect(cfg == CFG[state[0]], 'the configuration changed: {!r}', cfg)
                state = (state[0], w.observe('A', state[1]), w.observe('B', state[2]))
            except Violation as e:
                fail('history {}: {}'.format(acts[:i + 1], e))
        rec.state(repr((fam, state[0]) + state[1:]))
    rec.trace()


def graph(fam, depth):
    _, model, actions, init = FAM[fam]
    seen = {init}
    queue = deque([(init, [])])
    while queue:
        s, hist = queue.popleft()
        for act in actions:
            s2 = model(s, act)
            yield hist + [act]
            if s2 not in seen and len(hist) + 1 < depth:
                seen.add(s2)
                queue.append((s2, hist + [act]))


def graph_cases(tier):
    depth = {'E': 4, 'H': 6} if tier == 'quick' else {'E': 8, 'H': 30}
    for fam in 'HE':
        for h in graph(fam, depth[fam]):
            yield [fam, h]


def run_graph(case, rec):
    run_hist(case[0], case[1], rec, observe_all=False)


def seq_cases(tier):
    depth = {'E': 2, 'H': 3} if tier == 'quick' else {'E': 3, 'H': 4}
    for fam in 'HE':
        for k in range(1, depth[fam] + 1):
            for acts in itertools.product(FAM[fam][2], repeat=k):
                yield [fam, list(acts)]
    # deeper for the actions that write, with the noise actions in between
    core = ['new_explicit', 'copy', 'rep', 'dict', 'getproj', 'proj', 'projboth', 'swap', 'mutate', 'fail', 'one']
    if tier == 'quick':
        for acts in itertools.product(core, repeat=3):
            yield ['E', list(acts)]
    else:
        for acts in itertools.product(core, repeat=4):
            yield ['E', list(acts)]


def run_seq(case, rec):
    run_hist(case[0], case[1], rec)


# ------------------------------------------------------------------------------- every derived object is a new object
def e_menu():
    i2, i3 = np.eye(2), np.eye(3)
    g3 = arr([[3, 1, 0], [1, 2, 0], [0, 0, 1]])
    return {'general': [arr([1, -2]), arr([[4, 1], [1, 3]])], 'centered': [arr([0, 0]), arr([[4, 1], [1, 3]])], 'ball': [arr([0, 0]), i2.copy()],
            'moved ball': [arr([0.25, 0.5]), i2.copy()], 'diagonal': [arr([0, 0.5]), arr([[4, 0], [0, 9]])], 'point': [arr([1, 2]), arr([[0, 0], [0, 0]])],
            'segment': [arr([0, 0]), arr([[1, 1], [1, 1]])], 'line': [arr([0]), arr([[1]])], 'moved line': [arr([3]), arr([[16]])],
            'space': [arr([1, 0, 2]), g3], 'space ball': [arr([0, 0, 0]), i3.copy()], 'empty': []}


def h_menu():
    return {'general': [arr([1, -2]), 3.], 'unit': [arr([1, 0]), 0.], 'through zero': [arr([0.6, 0.8]), 0.], 'line': [arr([1]), 1.], 'zero': [arr([0]), 0.], 'space': [arr([0, 0, 2]), -1.]}


def bases(n):
    out = {'identity': np.eye(n), 'negative': -np.eye(n), 'reversed': np.eye(n)[:, ::-1].copy(), 'longer': 2 * np.eye(n), 'integer identity': np.eye(n, dtype=int)}
    if n > 1:
        out['first coordinate'] = np.eye(n)[:, :1].copy()
        out['all but one'] = np.eye(n)[:, 1:].copy()
    return out


def derive_ops(fam, n, name):
    cls = Ellipsoid if fam == 'E' else Hyperplane
    ops = {'copy': lambda a: cls.get_copy(a), 'rep': lambda a: np.hstack([o.rep_mat([2]) for o in np.ravel(a)]), 'rep one': lambda a: np.hstack([o.rep_mat([1]) for o in np.ravel(a)]),
           'dictionary': lambda a: cls.from_dict(cls.to_dict(a, True)[0]), 'plain dictionary': lambda a: cls.from_dict(cls.to_dict(a)[0]),
           'negation': lambda a: cls.uminus(a), 'minus': lambda a: [-o for o in np.ravel(a)], 'double minus': lambda a: [-(-o) for o in np.ravel(a)]}
    if name == 'zero':
        for k in ('dictionary', 'plain dictionary'):
            del ops[k]
    if fam == 'E' and name != 'empty':
        for k, b in bases(n).items():
            ops['projection onto ' + k] = lambda a, b=b: cls.get_projection(a, b)
        d = np.hstack((np.eye(n), np.eye(n)[:, :1], np.ones((n, 1))))
        ops['external sum'] = lambda a: cls.minksum_ea(a, d)
        ops['internal sum'] = lambda a: cls.minksum_ia(a, d)
        if name in ('general', 'centered', 'ball', 'moved ball', 'diagonal', 'line', 'space ball'):
            ops['polar'] = lambda a: cls.polar(a)
    return ops


def fresh_cases(tier):
    for fam, menu in (('E', e_menu()), ('H', h_menu())):
        for name, par in menu.items():
            n = len(par[0]) if par else 0
            for op in derive_ops(fam, n, name):
                for how in ('one', 'two', 'twice the same'):
                    yield [fam, name, op, how]


def observed(objs):
    return [snap(o) for o in objs]


def change(o):
    """Make an object something else by the one means there is."""
    n = int(Ellipsoid.dimension([o]).flat[0])
    if n > 1:
        Ellipsoid.projection([o], np.eye(n)[:, 1:] * 3)
    elif n == 1:
        Ellipsoid.projection([o], np.array([[-3.]]))


def run_fresh(case, rec):
    fam, name, opn, how = case
    Properties.init()
    menu = e_menu() if fam == 'E' else h_menu()
    cls = Ellipsoid if fam == 'E' else Hyperplane
    par = menu[name]
    n = len(par[0]) if par else 0
    if how == 'twice the same':
        o = cls(*par)
        args = [o, o]
    else:
        args = [cls(*par) for _ in range(1 if how == 'one' else 2)]
    if opn == 'polar' and name == 'general':
        par[0][:] = 0.25
        args = [cls(*par)]
    a = np.empty((len(args),), dtype=object)
    a[:] = args
    before = observed(args)
    res = list(np.ravel(np.array(derive_ops(fam, n, name)[opn](a), dtype=object)))
    what = '{} of {} ({})'.format(opn, name, how)
    for i, r in enumerate(res):
        expect(isinstance(r, cls), '{}: {!r} in the result', what, type(r))
        expect(all(r is not x for x in args), '{}: element {} of the result is the argument itself', what, i)
        expect(all(r is not x for x in res[:i]), '{}: element {} of the result is an earlier element', what, i)
    expect(observed(args) == before, '{}: the arguments changed', what)
    for x in par:
        scramble(x)
    if fam == 'E':
        got = observed(res)
        for i, r in enumerate(res):
            change(r)
            expect(observed(args) == before, '{}: the arguments changed after element {} of the result was projected', what, i)
            expect(observed(res[i + 1:]) == got[i + 1:], '{}: other elements of the result changed after element {} was projected', what, i)
        got = observed(res)
        for o in args:
            change(o)
        expect(observed(res) == got, '{}: the result changed after the arguments were projected', what)
    rec.state((name, opn, how))
    rec.step()
    rec.trace()


CHECK = Check('C03', 'model_checking',
              'every edge of the reachable state graph of the object model (ellipsoids and hyperplanes) replayed on real '
              'objects, and every action sequence up to the depth without state merging; a history is non-trivial when it '
              'creates, changes or derives an object',
              [Stage('new objects', fresh_cases, run_fresh),
               Stage('graph', graph_cases, run_graph,
                     nontrivial=lambda c: any(a not in ('query', 'swap', 'init', 'one', 'two') for a in c[1])),
               Stage('sequences', seq_cases, run_seq,
                     nontrivial=lambda c: any(a not in ('query', 'swap', 'init', 'one', 'two') for a in c[1]))])
