"""Bounded-exhaustive exploration engine.

A check is a list of stages.  A stage is a deterministic, simplest-first enumeration of cases
(JSON-able values) and a function that executes one case on the real code from /repo and raises
Violation when what the code did differs from what the reference model allows.  Every case of every
stage is executed (no sampling, no time cap); the cases are dealt round-robin to forked workers.
"""
import itertools
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ELLIPY_SRC', '/repo/products')   # override only used while developing the checks
CASE_TIMEOUT_S = 60
MAX_VIOLATIONS_PER_WORKER = 3


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class CaseTimeout(Exception):
    pass


def fail(msg, key=None):
    raise Violation(msg, key)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Rec:
    """What one worker covered."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.nontrivial = set()
        self.outcomes = {}

    def state(self, key):
        self.states.add(hash(key if isinstance(key, (str, tuple)) else repr(key)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        label = label if isinstance(label, str) else repr(label)
        self.outcomes[label] = self.outcomes.get(label, 0) + 1


class Stage:
    def __init__(self, name, cases, fn, nontrivial=None, setup=None, note=''):
        self.name = name
        self.cases = cases          # callable: tier -> iterable of cases
        self.fn = fn                # fn(case, rec)
        self.nontrivial = nontrivial
        self.setup = setup          # run before each case (e.g. reset the global configuration)
        self.note = note


class Check:
    def __init__(self, pid, level, rule, stages):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.stages = stages


def _tup(x):
    if isinstance(x, list):
        return tuple(_tup(i) for i in x)
    return x


def _alarm(signum, frame):
    raise CaseTimeout('case did not finish within {} s'.format(CASE_TIMEOUT_S))


def run_case(stage, case, rec):
    """-> None or (message, key)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        if stage.setup is not None:
            stage.setup()
        stage.fn(case, rec)
        return None
    except Violation as e:
        return str(e), e.key
    except CaseTimeout as e:
        return str(e), None
    except MemoryError:
        return 'ran out of memory', None
    except Exception as e:
        tb = traceback.format_exc().strip().split('\n')
        return 'unexpected {}: {} | {}'.format(type(e).__name__, e, ' / '.join(s.strip() for s in tb[-9:-1])), None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(check, tier, w, n, fd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = {'viol': [], 'stages': {}, 'samples': {}}
    for st in check.stages:
        rec = Rec()
        n_viol = 0
        samples = []
        n_cases = 0
        for i, case in enumerate(st.cases(tier)):
            if i % n != w:
                continue
            n_cases += 1
            k = hash(repr(case))
            rec.evaluations += 1
            if st.nontrivial is None or st.nontrivial(case):
                rec.nontrivial.add(k)
            if len(samples) < 1 and i >= 3:
                samples.append(case)
            bad = run_case(st, case, rec)
            if bad is not None:
                out['viol'].append([check.stages.index(st), i, st.name, case, bad[0], bad[1]])
                n_viol += 1
                if n_viol >= MAX_VIOLATIONS_PER_WORKER:
                    break
        out['stages'][st.name] = dict(evaluations=rec.evaluations, transitions=rec.transitions, traces=rec.traces,
                                      states=sorted(rec.states), nontrivial=sorted(rec.nontrivial),
                                      outcomes=rec.outcomes)
        out['samples'][st.name] = samples
    data = json.dumps(out).encode()
    with os.fdopen(fd, 'wb') as f:
        f.write(data)


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    res = []
    if os.path.exists(path):
        for ent in json.load(open(path)).get('findings', []):
            if ent.get('property') == pid and ent.get('status') == 'known':
                res.append(ent)
    return res


def _matches(ent, viol):
    _, _, stage, case, msg, key = viol
    if 'key' in ent:
        return key is not None and key == ent['key']
    return ent.get('stage') == stage and ent.get('case') == case


def explore(check, tier, seed):
    n = min(8, os.cpu_count() or 8)
    t0 = time.time()
    pids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for q in pids:
                    os.close(q[1])
                _worker(check, tier, w, n, wr)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(wr)
        pids.append((pid, r))
    results = []
    viol = []
    for w, (pid, r) in enumerate(pids):
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            viol.append([0, -1, 'worker', {'worker': w, 'of': n}, 'worker process died, status {}'.format(status), None])
        else:
            results.append(json.loads(data.decode()))
    agg = {}
    for res in results:
        viol += res['viol']
        for name, d in res['stages'].items():
            a = agg.setdefault(name, dict(evaluations=0, transitions=0, traces=0, states=set(), nontrivial=set(), outcomes={}))
            a['evaluations'] += d['evaluations']
            a['transitions'] += d['transitions']
            a['traces'] += d['traces']
            a['states'].update(d['states'])
            a['nontrivial'].update(d['nontrivial'])
            for k, v in d['outcomes'].items():
                a['outcomes'][k] = a['outcomes'].get(k, 0) + v
    samples = []
    for st in check.stages:
        for res in results:
            s = res['samples'].get(st.name, [])
            if s:
                samples.append({'stage': st.name, 'case': s[0]})
                break
    viol.sort(key=lambda v: (v[0], v[1]))
    cov = {
        'evaluations': sum(a['evaluations'] for a in agg.values()),
        'distinct_nontrivial': sum(len(a['nontrivial']) for a in agg.values()),
        'rule': check.rule,
        'samples': samples,
        'states': sum(len(a['states']) for a in agg.values()),
        'transitions': sum(a['transitions'] for a in agg.values()),
        'traces_validated_against_impl': sum(a['traces'] for a in agg.values()),
        'per_stage': {name: dict(cases=a['evaluations'], distinct_nontrivial=len(a['nontrivial']),
                                 states=len(a['states']), transitions=a['transitions'], traces=a['traces'],
                                 distinct_outcomes=len(a['outcomes']),
                                 outcomes=dict(sorted(a['outcomes'].items())[:40])) for name, a in agg.items()},
        'exhaustive_within_bounds': True,
    }
    if check.level != 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov.pop(k)
    known = known_findings(check.pid)
    seen = {}
    new = []
    for v in viol:
        ent = next((e for e in known if _matches(e, v)), None)
        if ent is None:
            new.append(v)
        else:
            seen[json.dumps(ent, sort_keys=True)] = ent
    for ent in seen.values():
        print('KNOWN-FINDING: property={} {}'.format(check.pid, ent['what']))
    ev = dict(property=check.pid, tier=tier, seed=seed, level=check.level, coverage=cov,
              wall_s=round(time.time() - t0, 3), violations=len(new), known_findings=len(seen))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return new, cov, ev


def write_replay(pid, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}-{}.json'.format(pid, v[2], v[1]))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, stage=v[2], index=v[1], case=v[3], message=v[4]), f, indent=1)
    return path


def import_under_test():
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import ellipy
    got = os.path.realpath(os.path.dirname(ellipy.__file__ or list(ellipy.__path__)[0] + '/x'))
    if not got.startswith(os.path.realpath(REPO)):
        raise RuntimeError('ellipy imported from ' + got)


def product(*axes):
    """Lexicographic product of lists, simplest first."""
    return itertools.product(*axes)
