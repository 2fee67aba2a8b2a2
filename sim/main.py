import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import clock, instrument, runner, sched

IMPORT_INSTANT = 1623760496 * 10 ** 9      # 2021-06-15T12:34:56Z


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d' % (path, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


def prepare(prop):
    if not clock.check():
        print('virtual clock not in effect', file=sys.stderr)
        sys.exit(3)
    sched.patch_threading()
    clock.set(IMPORT_INSTANT)
    instrument.install(getattr(prop, 'INSTRUMENT', True))
    prop.warm()


def evidence(prop, tier, seed, cover, wall, violations):
    cov = {
        'evaluations': cover.runs,
        'distinct_nontrivial': len(cover.digests),
        'rule': prop.RULE,
        'samples': cover.samples,
        'runs_per_hour': int(cover.runs * 3600 / max(cover.elapsed, 1e-3)),
        'seed_and_run_numbers': 'VERIF_SEED=%d, runs 0..%d; each run draws '
                                'from its own generator seeded by '
                                '(property, seed, tier, run number)'
                                % (seed, max(0, cover.runs - 1)),
        'faults_injected': cover.faults,
        'reruns_of_the_same_spec': cover.reruns,
        'reruns_with_identical_trace': cover.reruns_same,
        'real_code': prop.REAL,
        'stubs': prop.STUBS,
    }
    cov.update(cover.sums)
    for k, v in sorted(cover.sets.items()):
        cov['distinct_' + k] = len(v)
    extra = getattr(prop, 'extra_evidence', None)
    if extra is not None:
        cov.update(extra(cover))
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
        'coverage': cov, 'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': violations,
    }
    write_json(os.path.join(runner.VERIF, 'evidence', prop.ID + '.json'), ev)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int,
                    default=int(os.environ.get('SIM_WORKERS', '8')))
    ap.add_argument('--digests', type=int,
                    help='print the trace digest of the first N runs and stop')
    ap.add_argument('--one', type=int, help='execute one run and print it')
    args = ap.parse_args(argv)
    t0 = time.monotonic()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0') or '0')
    except ValueError:
        seed = int.from_bytes(os.environ['VERIF_SEED'].encode(), 'big') \
            & 0x7fffffff
    prop = importlib.import_module('sim.props.' + args.property.lower())
    try:
        prepare(prop)
    except (Exception, runner.Violation) as e:
        text = traceback.format_exc()
        if not isinstance(e, runner.Violation) and \
                not runner.from_package(text):
            raise
        # What every run begins with fails already.
        if args.replay:
            path = args.replay
        else:
            path = os.path.join(runner.VERIF, 'replays', '%s-seed%d-start.json'
                                % (prop.ID, seed))
            write_json(path, {
                'property': prop.ID, 'seed': seed, 'tier': tier, 'spec': None,
                'violation': {'kind': 'start', 'detail': text},
                'replay_cmd': './run %s --replay %s' % (prop.ID, path)})
            evidence(prop, tier, seed, runner.Cover(),
                     time.monotonic() - t0, 1)
        print(text)
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        if rec['spec'] is None:
            print('replay: no violation')
            return 0
        res = runner.execute_isolated(prop, rec['spec'])
        if 'error' in res:
            print(res['error'])
            return 3
        v = res.get('violation')
        if v:
            print('%s: %s' % (v['kind'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (prop.ID, args.replay))
            return 1
        print('replay: no violation')
        return 0
    if args.one is not None:
        spec = prop.generate(
            runner.rng_for(prop.ID, seed, tier, args.one), args.one, tier)
        print(json.dumps(spec))
        print(json.dumps(runner.execute_isolated(prop, spec), indent=1))
        return 0
    if args.digests is not None:
        for i in range(args.digests):
            spec = prop.generate(
                runner.rng_for(prop.ID, seed, tier, i), i, tier)
            res = runner.execute_isolated(prop, spec)
            print(i, res.get('digest'), res.get('violation'),
                  res.get('error'))
        return 0

    nruns, budget = prop.PLAN[tier]
    nruns = args.runs or nruns
    budget = args.budget or budget
    cover, found, error = runner.run_all(
        prop, seed, tier, nruns, budget, args.workers,
        getattr(prop, 'CHUNK', 8))
    if found is None:
        evidence(prop, tier, seed, cover, time.monotonic() - t0, 0)
        if error is not None:
            print('error in run %d:\n%s' % error)
            return 3
        for k in sorted(cover.known):
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, k))
        print('%s: %d runs, %d distinct non-trivial, %.1f s, no violation'
              % (prop.ID, cover.runs, len(cover.digests),
                 time.monotonic() - t0))
        if cover.runs == 0 or not prop.adequate(cover):
            print('the check explored too little to decide')
            return 3
        return 0

    i, v = found
    spec = prop.generate(runner.rng_for(prop.ID, seed, tier, i), i, tier)
    if v['kind'] == 'hang':
        small, tries = spec, 0
    else:
        explicit, v2 = runner.confirm(prop, spec)
        if explicit is None:
            evidence(prop, tier, seed, cover, time.monotonic() - t0, 0)
            print('run %d broke the property once (%s: %s) but not again; '
                  'not reported as a violation'
                  % (i, v['kind'], v['detail']))
            return 3
        small, tries = runner.minimise(prop, explicit, v2['kind'])
        res = runner.execute_isolated(prop, small)
        v = res.get('violation') or v2
    path = os.path.join(runner.VERIF, 'replays', '%s-seed%d-run%d.json'
                        % (prop.ID, seed, i))
    write_json(path, {
        'property': prop.ID, 'seed': seed, 'tier': tier, 'run': i,
        'violation': v, 'spec': small, 'original_spec': spec,
        'minimisation_runs': tries,
        'replay_cmd': './run %s --replay %s' % (prop.ID, path),
    })
    evidence(prop, tier, seed, cover, time.monotonic() - t0, 1)
    print('run %d: %s: %s' % (i, v['kind'], v['detail']))
    print('VIOLATION property=%s replay=%s' % (prop.ID, path))
    return 1


if __name__ == '__main__':
    sys.exit(main())
