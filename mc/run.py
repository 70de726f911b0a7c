import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    name = next(f[:-3] for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__))))
                if f.startswith(pid.lower() + '_') and f.endswith('.py'))
    try:
        core.import_under_test()
        mod = importlib.import_module(name)
        check = mod.CHECK
    except Exception:
        msg = traceback.format_exc()
        path = core.write_replay(pid, [0, 0, 'import', None, msg, None])
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=0.,
                  coverage=dict(evaluations=1, distinct_nontrivial=0, rule='import of the code under test failed', samples=[msg]))
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(core.VERIF, 'evidence', pid + '.json'), 'w'))
        print(msg)
        print('VIOLATION property={} replay={}'.format(pid, path))
        sys.stdout.flush()
        os._exit(1)
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        st = next(s for s in check.stages if s.name == d['stage'])
        bad = core.run_case(st, d['case'], core.Rec())
        print('holds' if bad is None else 'VIOLATION property={} replay={}\n  {}'.format(pid, sys.argv[-1], bad[0]))
        sys.exit(0 if bad is None else 1)
    new, cov, ev = core.explore(check, tier, seed)
    for k, v in cov['per_stage'].items():
        print('{} {}: cases={} states={} transitions={} traces={} distinct_outcomes={}'.format(
            pid, k, v['cases'], v['states'], v['transitions'], v['traces'], v['distinct_outcomes']))
    print('{} tier={} evaluations={} distinct_nontrivial={} wall={}s violations={}'.format(
        pid, tier, cov['evaluations'], cov['distinct_nontrivial'], ev['wall_s'], len(new)))
    if new:
        for v in new[:5]:
            print('  stage={} index={} case={} : {}'.format(v[2], v[1], json.dumps(v[3])[:600], v[4][:1500]))
        path = core.write_replay(pid, new[0])
        print('VIOLATION property={} replay={}'.format(pid, path))
    sys.stdout.flush()
    os._exit(1 if new else 0)


if __name__ == '__main__':
    main()
