"""C04: calls are pure: no argument is modified, nothing global is modified, and a result depends on the arguments
only, not on which calls came before nor on verbosity or later configuration changes."""
import logging
import os
import pickle

import numpy as np

from calls import CALLS, MORE
from core import Check, Stage
from lib import DEFAULTS, Properties, fail, snap_config
from variants import (KINDS, SHIFT, apply, canon, check_conf, check_rep, check_used, copy_into, differs, edits, in_child, lay,
                      outcome, rep_cases, used_cases)

logging.disable(logging.CRITICAL)

NAMES = list(CALLS)
ALL = dict(CALLS)
for _pid in sorted(MORE):
    ALL.update(MORE[_pid])
MAY_ALIAS = {'treat_real', 'copy'}


def scramble(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                scramble(v)
        elif x.flags.writeable and x.dtype.kind in 'fiubc' and x.base is None or \
                (isinstance(x.base, np.ndarray) and x.flags.writeable and x.dtype.kind in 'fiubc'):
            x[...] = 1 if x.dtype.kind == 'b' else 99
    elif isinstance(x, (list, tuple)):
        for v in x:
            scramble(v)
    elif isinstance(x, dict):
        for v in x.values():
            scramble(v)


def env():
    return snap_config(), repr(np.geterr()), np.get_printoptions().get('precision')


CONFS = {'default': dict(DEFAULTS), 'verbose': dict(DEFAULTS, is_verbose=True),
         'changed': dict(DEFAULTS, is_verbose=True, rel_tol=0.25, n_plot_2d_points=5, n_plot_3d_points=3, reg_tol=0.1,
                         n_time_grid_points=3)}
_base = {}


def baseline(name):
    """Result of the call in the default configuration, as the first call of a fresh process."""
    if isinstance(_base[name], Exception):
        fail('{}: {!r} in a fresh process'.format(name, _base[name]))
    return _base[name]


def compute_baselines():
    for n, (mk, f) in CALLS.items():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                Properties.init()
                out = canon(f(*mk()))
            except Exception as e:
                out = RuntimeError(repr(e))
            with os.fdopen(w, 'wb') as fd:
                pickle.dump(out, fd)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as fd:
            _base[n] = pickle.load(fd)
        os.waitpid(pid, 0)


compute_baselines()


def one(name, conf, rec, check_alias=True):
    mk, f = CALLS[name]
    Properties.init()
    args = mk()
    Properties.set_conf_repo_mgr(dict(CONFS[conf]))
    before, env_before = canon(args), env()
    res = f(*args)
    rec.step()
    if differs(canon(args), before):
        fail('{}: an argument was modified'.format(name))
    if env() != env_before:
        fail('{}: the call changed global state (configuration, numpy error state, print options or random state)'.format(name))
    got = canon(res)
    rec.outcome(name)
    if check_alias and name not in MAY_ALIAS:
        scramble(res)
        if differs(canon(args), before):
            fail('{}: modifying the result modifies an argument'.format(name))
    return got


def seq_cases(tier):
    for n in NAMES:
        for conf in CONFS:
            yield [conf, [n]]
    for a in NAMES:
        for b in NAMES:
            yield ['default', [a, b]]
    sub = NAMES if tier != 'quick' else []
    for a in sub:
        for b in sub:
            yield ['changed', [a, b, a]]
            yield ['verbose', [b, a, b]]


def run_seq(case, rec):
    conf, names = case
    for n in names:
        got = one(n, conf, rec)
        if differs(got, baseline(n)):
            fail('{} after {} in configuration {}: the result differs from the one of a fresh call'.format(n, names, conf))
    rec.trace()


def readonly_cases(tier):
    return NAMES


def freeze(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
        if x.dtype == object:
            for v in x.ravel():
                freeze(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            freeze(v)


def run_readonly(name, rec):
    """The same call with write-protected arguments, and with the same arrays passed to two calls in a row."""
    mk, f = CALLS[name]
    Properties.init()
    args = mk()
    freeze(args)
    got = canon(f(*args))
    if differs(got, baseline(name)):
        fail('{}: other result for write-protected arguments'.format(name))
    again = f(*args)
    if differs(canon(again), baseline(name)):
        fail('{}: second call with the same arguments gives another result'.format(name))
    rec.step(2)


def nb_cases(tier):
    for n in ALL:
        for mode in ('fresh', 'inplace'):
            yield [n, mode]


def run_nb(case, rec):
    """One history of a call and its neighbours (arguments differing in one entry), each result being compared with the
    one of a process that makes only this call."""
    name, mode = case
    mk, f = ALL[name]
    eds = edits(mk())
    eds = eds[::max(1, len(eds) // 5)]

    def args_of(k):
        return mk() if k is None else apply(mk(), eds[k])

    def alone(k):
        def go():
            Properties.init()
            return outcome(f, args_of(k))
        return in_child(go)

    order = [None]
    for k in range(len(eds)):
        order += [k, None]

    def history():
        Properties.init()
        held, out = mk(), []
        for k in order:
            args = args_of(k) if mode == 'fresh' else copy_into(held, args_of(k))
            before = canon(args)
            out.append([outcome(f, args), differs(canon(args), before)])
        return out

    refs = {k: alone(k) for k in set(order)}
    if isinstance(refs[None], list) and refs[None][:1] == ['error']:
        fail('{}: the call itself fails: {}'.format(name, refs[None]))
    for j, (k, (g, changed)) in enumerate(zip(order, in_child(history))):
        if changed:
            fail('{}: call {} of a history modified its arguments'.format(name, j + 1))
        if differs(g, refs[k]):
            fail('{}: call {} of the history {} ({}; numbers are the changes {} of the arguments) gives {}, as the first call {}'.format(
                name, j + 1, order, mode, eds, repr(g)[:300], repr(refs[k])[:300]))
    rec.step(len(order))
    rec.trace()


def lay_cases(tier):
    for n, (mk, f) in ALL.items():
        if any(isinstance(a, np.ndarray) and a.ndim >= 1 for a in mk()):
            for kind in KINDS:
                yield [n, kind]


def run_lay(case, rec):
    """Arguments in another memory layout are not modified either, nor is anything global."""
    name, kind = case
    mk, f = ALL[name]
    Properties.init()
    args = [lay(a, kind) if isinstance(a, np.ndarray) and a.ndim >= 1 else a for a in mk()]
    before, env_before = canon(args), env()
    want = outcome(f, mk())
    got = outcome(f, args)
    rec.step(2)
    if differs(canon(args), before):
        fail('{}: an argument in layout {!r} was modified'.format(name, kind))
    if differs(got, want):
        fail('{}: another result for arguments in layout {!r}'.format(name, kind))
    if env() != env_before:
        fail('{}: the call changed global state'.format(name))


def conf_cases(tier):
    for n in ALL:
        for k in SHIFT:
            yield [n, k]


def run_conf(case, rec):
    """The objects capture the default values when they are made: configured values changed later do not matter."""
    check_conf(case[0], ALL[case[0]], case[1])
    rec.step(2)
    rec.outcome(case[1])



def run_rep(case, rec):
    """One object given in several places counts as several equal objects."""
    check_rep(case[0], ALL[case[0]], *case[1:])
    rec.step(2)
    rec.outcome(case[1])


def run_used(case, rec):
    """Nothing of earlier calls is kept in objects that are changed in place."""
    check_used(case[0], ALL[case[0]], case[1])
    rec.step(4)
    rec.outcome(case[1])


CHECK = Check('C04', 'exploration',
              'every ordered pair of library calls over an alphabet of {} calls covering the public functions, every call in '
              'every configuration, with write-protected arguments; non-trivial when at least two calls interact or the '
              'configuration is not the default one'.format(len(NAMES)),
              [Stage('neighbours', nb_cases, run_nb),
               Stage('layouts', lay_cases, run_lay),
               Stage('configured values', conf_cases, run_conf),
               Stage('repeated arguments', lambda tier: rep_cases(None, CALLS if tier == 'quick' else ALL)(tier), run_rep),
               Stage('changed objects', used_cases(None, ALL), run_used),
               Stage('sequences', seq_cases, run_seq, nontrivial=lambda c: len(c[1]) > 1 or c[0] != 'default'),
               Stage('readonly', readonly_cases, run_readonly)])
