"""C31: errors, warnings and diagnostics."""
import itertools
import logging
import os
import re
import sys
import tempfile
import warnings

import numpy as np

import ora
from core import Check, Stage
from lib import Ellipsoid, Hyperplane, Properties, arr, ell, expect, fail, reset
from ellipy.gen.common.common import get_caller_name, throw_error, throw_warn
from ellipy.gen.logging.logging import get_logger

# -- call chains: every link calls the next one directly, the last one calls the function under test --------


def plain(rest, act, args):
    if rest:
        return LINKS[rest[0]][0](rest[1:], act, args)
    return act(*args)


def Mixed_Name2(rest, act, args):
    if rest:
        return LINKS[rest[0]][0](rest[1:], act, args)
    return act(*args)


def _outer():
    def inner(rest, act, args):
        if rest:
            return LINKS[rest[0]][0](rest[1:], act, args)
        return act(*args)
    return inner


class Alpha:
    def method(self, rest, act, args):
        if rest:
            return LINKS[rest[0]][0](rest[1:], act, args)
        return act(*args)

    @classmethod
    def of_class(cls, rest, act, args):
        if rest:
            return LINKS[rest[0]][0](rest[1:], act, args)
        return act(*args)

    @staticmethod
    def static(rest, act, args):
        if rest:
            return LINKS[rest[0]][0](rest[1:], act, args)
        return act(*args)

    @property
    def prop(self):
        if self.rest:
            return LINKS[self.rest[0]][0](self.rest[1:], self.act, self.args)
        return self.act(*self.args)

    def __call__(self, rest, act, args):
        if rest:
            return LINKS[rest[0]][0](rest[1:], act, args)
        return act(*args)


class BetaGamma(Alpha):
    pass


INNER = _outer()
M = __name__
# link -> (function, class as it has to be named, name of the function)
LINKS = {
    'f': (plain, None, 'plain'), 'F': (Mixed_Name2, None, 'Mixed_Name2'), 'i': (INNER, None, 'inner'),
    'm': (Alpha().method, 'Alpha', 'method'), 'b': (BetaGamma().method, 'BetaGamma', 'method'),
    'c': (Alpha.of_class, None, 'of_class'), 's': (Alpha.static, None, 'static'), 'a': (BetaGamma(), 'BetaGamma', '__call__'),
    'l': (lambda rest, act, args: LINKS[rest[0]][0](rest[1:], act, args) if rest else act(*args), None, '<lambda>'),
}
TAGS = [('wrongInput', 'text'), ('wrongInput:x_vec', 'a.b: c\\d {} %s'), ('', ''), ('a.b', 'ABC def')]


def origin(link):
    _, c, f = LINKS[link]
    return '.'.join([M] + ([c] if c else []) + [f])


def chain_cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for ch in itertools.product(LINKS, repeat=k):
            yield [''.join(ch)]


def run_chain(case, rec):
    ch = case[0]

    def go(act, *args):
        return LINKS[ch[0]][0](ch[1:], act, args)
    for j, (tag, text) in enumerate(TAGS):
        for up in range(1, len(ch) + 1):
            pre = origin(ch[-up]).replace('.', ':').upper()
            want = pre + ':' + tag + ':' + text
            for args in ((tag, text, up), (tag, text, up, True)) + (((tag, text),) if up == 1 else ()):
                try:
                    r = go(throw_error, *args)
                except ValueError as e:
                    expect(type(e) is ValueError and str(e) == want and e.args == (want,), 'chain {} level {}: {!r} instead of {!r}', ch, up, str(e), want)
                else:
                    fail('chain {}: no error but {!r}'.format(ch, r))
            try:
                r = go(throw_error, tag, text, up, False)
            except ValueError as e:
                fail('chain {}: raised although only asked for: {}'.format(ch, e))
            expect(isinstance(r, ValueError) and str(r) == want, 'chain {} level {}: {!r} instead of {!r}', ch, up, r, want)
            if j == 0:
                full, short = go(get_caller_name, up, 'full'), go(get_caller_name, up)
                expect(full == origin(ch[-up]), 'chain {} level {}: caller {!r}', ch, up, full)
                expect(short == origin(ch[-up]).rsplit('.', 1)[0], 'chain {} level {}: caller {!r}', ch, up, short)
                expect(go(get_caller_name, up, 'default') == short, 'chain {} level {}: default mode', ch, up)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            go(throw_warn, tag, text)
        want = origin(ch[-1]).replace('.', ':').upper() + ':' + tag + ':' + text
        expect(len(w) == 1 and issubclass(w[0].category, RuntimeWarning) and str(w[0].message) == want, 'chain {}: warnings {} instead of {!r}', ch, [str(x.message) for x in w], want)
    rec.outcome((len(ch), ch[-1]))


def deep_cases(tier):
    return [[k] for k in (1, 2, 5, 20, 60)]


def run_deep(case, rec):
    """More levels than the stack has."""
    k = case[0]
    ch = 'fm' * k
    for up in (1000, 5000):
        e = LINKS[ch[0]][0](ch[1:], throw_error, ('t', 'x', up, False))
        expect(isinstance(e, ValueError) and str(e) == ':t:x', 'more levels than there are: {!r}', e)
        expect(LINKS[ch[0]][0](ch[1:], get_caller_name, (up, 'full')) == '', 'caller beyond the stack')
    e = LINKS[ch[0]][0](ch[1:], throw_error, ('t', 'x', len(ch), False))
    expect(str(e) == origin(ch[0]).replace('.', ':').upper() + ':t:x', 'level {}: {!r}', len(ch), e)
    try:
        get_caller_name(1, 'other')
        fail('unknown mode accepted')
    except ValueError:
        pass
    rec.outcome(k)


# -- input checks of the library ------------------------------------------------------------
E2, E3 = [[2, 0], [0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def bad_calls():
    import ellipy.gen.common.common as c
    import ellipy.gras.gen.gen as g
    import ellipy.gras.geom.geom as ge
    import ellipy.gras.geom.ell.ell as el
    import ellipy.gras.geom.sup.sup as su
    import ellipy.gras.geom.tri.tri as tr
    import ellipy.gras.la.la as la
    e2, e3 = ell(E2), ell(E3)
    h = Hyperplane(arr([1, 0]), 1.)
    one = np.array([e2])
    v = arr([[1.], [0.]])
    yield lambda: Ellipsoid(arr([[1, 2], [0, 1]]))
    yield lambda: Ellipsoid(arr([[-1, 0], [0, 1]]))
    yield lambda: Ellipsoid(arr([1, 2, 3]), arr(E2))
    yield lambda: Ellipsoid(arr([[1 + 1j]]) if False else np.array([[1 + 1j]]))
    yield lambda: e2.is_bigger(e3)
    yield lambda: Ellipsoid.is_internal([e2], arr([[1.], [0.], [0.]]), 'u')
    yield lambda: Ellipsoid.is_internal([e2], v, 'x')
    yield lambda: Ellipsoid.minksum_ea([e2, e3], v)
    yield lambda: Ellipsoid.minksum_ia([e2], arr([[1.], [0.], [0.]]))
    yield lambda: Ellipsoid.rho([e2], arr([[1.], [0.], [0.]]))
    yield lambda: Ellipsoid.projection(one, arr([[1., 1.], [0., 1.]]))
    yield lambda: Ellipsoid.projection(one, arr([[1.], [0.], [0.]]))
    yield lambda: ell(E2, [5, 5]).polar(np.array([ell(E2, [5, 5])])) if False else Ellipsoid.polar([ell(E2, [5, 5])])
    yield lambda: Ellipsoid.max_eig([Ellipsoid()])
    yield lambda: Hyperplane(arr([[1, 2], [3, 4], [5, 6]]).reshape(3, 2, 1), arr([1., 2., 3.]))
    yield lambda: Hyperplane.contains(np.array([h]), arr([1., 2., 3.]))
    yield lambda: c.abs_rel_compare(arr([1.]), arr([1., 2.]), -1., None, lambda x: np.abs(x))
    yield lambda: g.sort_rows_tol(arr([[1.]]), -1.)
    yield lambda: g.sort_rows_tol(arr([1.]), 1.)
    yield lambda: g.sqrt_pos(-1.)
    yield lambda: g.sqrt_pos(arr([1.]), -1.)
    yield lambda: ge.sphere_part(0)
    yield lambda: tr.sphere_tri(-1)
    yield lambda: tr.sphere_tri_ext(3, 0)
    yield lambda: tr.map_face_2_edge(np.array([[0, 1]]))
    yield lambda: tr.map_face_2_edge(np.array([0, 1]))
    yield lambda: su.sup_geom_diff_2d(arr([1.]), arr([1.]), arr([1.]))
    yield lambda: su.sup_geom_diff_3d(arr([1.] * 3), arr([1.] * 3), arr([[1., 2., 3.]] * 3))
    yield lambda: la.is_mat_pos_def(arr(E2), -1.)
    yield lambda: la.is_mat_symm(arr([1.]))
    yield lambda: la.reg_pos_def_mat(arr(E2), -1.)
    yield lambda: la.sqrtm_pos(arr([[-1.]]))
    yield lambda: la.sqrtm_pos(arr([[1., 2.], [0., 1.]]))
    yield lambda: la.orth_transl(arr([0., 0.]), arr([1., 0.]))
    yield lambda: la.orth_transl_qr(arr([1., 0.]), arr([0., 0.]))
    yield lambda: la.try_treat_as_real(np.array([1j]))
    yield lambda: la.try_treat_as_real(1., -1.)
    yield lambda: el.quad_mat(arr([1.]), arr([1.]))


def input_cases(tier):
    return [[i] for i in range(len(list(bad_calls())))]


PAT = re.compile(r'^(ELLIPY(?::[^:a-z ]+)+):([A-Za-z_][\w,/ ]*(?::[\w, /]+)?):(.*)$', re.S)


def run_input(case, rec):
    f = list(bad_calls())[case[0]]
    try:
        r = f()
    except ValueError as e:
        m = PAT.match(str(e))
        expect(type(e) is ValueError and m is not None, 'call {}: message {!r}', case[0], str(e))
        head = m.group(1).lower().split(':')
        path = os.path.join(os.path.dirname(sys.modules['ellipy'].__file__), '..')
        got = 0
        for x in head:
            low = {n.lower(): n for n in os.listdir(path)} if os.path.isdir(path) else {}
            if x in low:
                path, got = os.path.join(path, low[x]), got + 1
            elif x + '.py' in low:
                path, got = os.path.join(path, low[x + '.py']), got + 1
                break
            else:
                break
        expect(path.endswith('.py') and len(head) > got, 'call {}: the origin in {!r} names no module and function', case[0], str(e))
    else:
        fail('call {}: {!r} instead of an error'.format(case[0], r))
    rec.outcome(case[0])


# -- loggers ------------------------------------------------------------------------------
class Captured:
    """What is written to the standard streams, and how many records are emitted."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.file = tempfile.TemporaryFile()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.file.fileno(), 1)
        os.dup2(self.file.fileno(), 2)
        self.factory = logging.getLogRecordFactory()
        self.records = 0

        def count(*args, **kw):
            self.records += 1
            return self.factory(*args, **kw)
        logging.setLogRecordFactory(count)
        return self

    def __exit__(self, *exc):
        logging.setLogRecordFactory(self.factory)
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.old[0], 1)
        os.dup2(self.old[1], 2)
        os.close(self.old[0])
        os.close(self.old[1])
        self.file.seek(0)
        self.text = self.file.read().decode('utf-8', 'replace')
        self.file.close()


def from_plain(act):
    return act()


def other_plain(act):
    return act()


class Gamma:
    def from_method(self, act):
        return act()

    def second(self, act):
        return act()


class Delta(Gamma):
    pass


CALLERS = {'p': (from_plain, M + '.from_plain'), 'o': (other_plain, M + '.other_plain'), 'm': (Gamma().from_method, M + '.Gamma.from_method'),
           's': (Gamma().second, M + '.Gamma.second'), 'd': (Delta().from_method, M + '.Delta.from_method')}
LEVELS = ['debug', 'info', 'warning', 'error']


def log_cases(tier):
    n = 3 if tier == 'quick' else 4
    ops = [c + a for c in CALLERS for a in 'g0'] + ['p3', 'm1', 'd2']
    for k in range(1, n + 1):
        for h in itertools.product(ops, repeat=k):
            yield [list(h)]


def run_log(case, rec):
    seen = {}
    for i, (c, a) in enumerate(case[0]):
        f, name = CALLERS[c]
        with Captured() as cap:
            lg = f(get_logger)
            if a != 'g':
                text = 'message {} of {}'.format(i, name)
                getattr(lg, LEVELS[int(a)])(text)
        expect(isinstance(lg, logging.Logger) and lg.name == name, 'history {}: logger {!r} instead of {}', case[0], lg, name)
        expect(seen.setdefault(c, lg) is lg and sum(x is lg for x in seen.values()) == 1, 'history {}: another logger is given for {}', case[0], c)
        if a == 'g':
            expect(cap.text == '', 'history {}: asking for a logger writes {!r}', case[0], cap.text)
        else:
            expect(cap.text.count(text) == 1 and cap.text.count('\n') == 1, 'history {}: {!r} is written for one record', case[0], cap.text)
        rec.step()
    rec.state(tuple(sorted(seen)))
    rec.outcome(len(seen))


def diag_ops():
    deg, full = [[1, 0], [0, 0]], [[2, 0], [0, 1]]
    d = np.eye(2)

    def call(name, q):
        e = ell(q)
        if name == 'bigger':
            return lambda: e.is_bigger(ell([[1, 0], [0, 0]]))
        if name == 'internal':
            return lambda: Ellipsoid.is_internal([e, ell(E2)], d, 'u')
        if name == 'ea':
            return lambda: Ellipsoid.minksum_ea([ell(E2), e], d[:, :1])
        return lambda: Ellipsoid.minksum_ia([e, ell(E2)], d[:, :1])
    out = {}
    for n in ('bigger', 'internal', 'ea', 'ia'):
        out[n + '-deg'] = (call(n, deg), True)
        out[n + '-full'] = (call(n, full), False)
    return out


def diag_cases(tier):
    ops = sorted(diag_ops()) + ['on', 'off']
    for k in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(ops, repeat=k):
            if k == 1 or any(x.endswith('-deg') for x in h):
                yield [list(h)]


def run_diag(case, rec):
    reset()
    on = False
    ops = diag_ops()
    for op in case[0]:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with Captured() as cap:
                if op in ('on', 'off'):
                    Properties.set_is_verbose(op == 'on')
                else:
                    ops[op][0]()
        if op in ('on', 'off'):
            on = op == 'on'
        lines = [x for x in cap.text.split('\n') if x]
        if on and op in ops and ops[op][1]:
            expect(cap.records >= 1 and len(lines) == cap.records, 'history {}, {}: {} records are written as {!r}', case[0], op, cap.records, cap.text)
        else:
            expect(cap.text == '', 'history {}, {}: {!r} is written although verbose output is {}', case[0], op, cap.text, 'on' if on else 'off')
        rec.step()
        rec.state(on)
    rec.outcome(on)
    reset()


CHECK = Check('C31', 'exploration',
              'all call chains of up to 3 (thorough 4) links through functions, nested functions, lambdas, methods, inherited, class and static methods and callable objects x all levels x tags; '
              'a table of wrong calls over the whole library; all histories of up to 3 (thorough 4) requests of loggers and records from 5 callers, and of verbosity switches and diagnosing calls, '
              'with the standard streams captured; non-trivial: at least 2 links / operations',
              [Stage('call chains', chain_cases, run_chain, nontrivial=lambda c: len(c[0]) > 1, setup=reset),
               Stage('deep stacks', deep_cases, run_deep, setup=reset),
               Stage('input checks', input_cases, run_input, setup=reset),
               Stage('loggers', log_cases, run_log, nontrivial=lambda c: len(c[0]) > 1, setup=reset),
               Stage('diagnostics', diag_cases, run_diag, nontrivial=lambda c: len(c[0]) > 1, setup=reset)])
