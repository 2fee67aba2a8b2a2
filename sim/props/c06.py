"""C06: constructions running at the same time do not disturb each other."""
from .. import runner, sched
from . import build, common

ID = 'C06'
LEVEL = 'exploration'
PLAN = {'quick': (1500, 75), 'thorough': (60000, 800)}
CHUNK = 2
RULE = ('A run builds 2-5 calendars of all exchanges in 2-3 threads under a '
        'seeded schedule, by calling the class or fetching a name, sometimes '
        'with an error injected into one of them. Every calendar must equal '
        'one built alone in a fresh process, and process-wide state must be '
        'as before. Run i uses exchange i modulo their number in thread 0. '
        'Non-trivial: at least one preemption inside a construction. '
        'Distinct: by digest of the (thread, site) trace.')
REAL = ['trading_calendars (whole package, from the working tree)', 'pandas',
        'numpy', 'pytz']
STUBS = ['thread scheduling', 'locks created by the package', 'wall clock',
         'default year range in which pandas lists holidays (2010-2030 '
         'instead of 1970-2200)']
ASSUMPTIONS = ['Preemption happens between the reads, writes and calls of the '
               'package\'s own functions; calls into pandas, numpy and the '
               'standard library are atomic except where they call back.']


def warm():
    import trading_calendars  # noqa
    build.compute_refs()


def recheck(i):
    return i % 97 == 7


def adequate(cover):
    return cover.sums.get('preemptions', 0) > 500


def generate(rng, i, tier):
    names = build.NAMES
    first = build.some_name(rng, i - i // 3)
    if i % 3 == 1:
        first = build.some_name(rng, i // 3)
        # One stops at a chosen point while others build the same exchange.
        w = rng.randrange(2)
        threads = [[[t, [first, rng.choice([w, 1 - w]) if t else w, False]]]
                   for t in range(rng.choice([2, 2, 3]))]
        k = build.some_point(rng, build.REF[(first, w)])
        back = [] if rng.random() < 0.5 else [[
            'p', 1, 1, build.some_point(
                rng, build.REF[(first, threads[1][0][1][1])]), 0]]
        return {'threads': threads, 'faults': [], 'strategy': [
            'x', [['f', -1, -1, 0, 0], ['p', 0, 0, k, 1]] + back]}
    n = rng.choice([2, 2, 2, 3])
    threads = []
    oid = 0
    for t in range(n):
        th = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            if oid == 0 or r < 0.45:
                name = first
            else:
                name = rng.choice(names)
            w = rng.randrange(2)
            th.append([oid, [name, w, rng.random() < 0.3]])
            oid += 1
        threads.append(th)
    faults = []
    if rng.random() < 0.25:
        t = rng.randrange(n)
        o, (name, w, _) = rng.choice(threads[t])
        k = build.some_point(rng, build.REF[(name, w)])
        faults.append([t, o, k, rng.choice(sorted(sched.FAULT_KINDS))])
    # Most of the scheduling points of some exchanges are in the inner loops
    # of their holiday rules; aim inside the part before that as well.
    total = sum(build.REF[(o[0], o[1])]['n'] for th in threads for _, o in th)
    length = total if rng.random() < 0.5 else min(total, rng.choice(
        [200, 600, 2000]))
    return {'threads': threads, 'faults': faults,
            'strategy': sched.random_strategy(rng, length)}


def execute(spec):
    import trading_calendars as tc
    out = {'sums': {}, 'sets': {}, 'faults': {}}
    for name, w in sorted({(o[0], o[1]) for th in spec['threads']
                           for _, o in th if o[2]}):
        tc.register_calendar_type('sim-%s-%d' % (name, w),
                                  lambda name=name, w=w: build.make(name, w))
    for name in sorted({o[0] for th in spec['threads'] for _, o in th}):
        build.cls_of(name)
    before = build.process_state()
    done = []

    def body(s, ops):
        def f():
            for oid, (name, w, named) in ops:
                s.begin_op(oid)
                try:
                    if named:
                        cal = tc.get_calendar('sim-%s-%d' % (name, w))
                    else:
                        cal = build.make(name, w)
                except sched.INJECTED:
                    continue
                except Exception as e:
                    cal = e
                done.append((oid, name, w, named, cal))
        return f

    s = sched.Scheduler(
        sched.make_strategy(spec['strategy'], len(spec['threads'])),
        max_steps=2000000, faults=spec['faults'])
    for ops in spec['threads']:
        s.spawn(body(s, ops))
    s.run()
    common.sched_cover(out, s)
    out['digest'] = s.digest
    out['decisions'] = s.decisions
    extra = {'decisions': s.decisions}
    common.check_sched(s, extra)

    def bad(kind, text):
        v = runner.Violation(kind, text)
        v.extra = extra
        raise v

    diff = build.diff_state(before, build.process_state())
    if diff:
        bad('process-state', 'after %s: %s' % (spec['threads'], diff))
    byname = {}
    for oid, name, w, named, cal in done:
        if isinstance(cal, Exception):
            if s.fired:
                # An error injected into a construction may surface as
                # another kind of error.
                continue
            bad('build-failed', '%s raised %s: %s' % (
                name, type(cal).__name__, cal))
        d = build.compare(cal, name, w)
        if d:
            bad('different-calendar', d)
        if named and byname.setdefault((name, w), cal) is not cal:
            bad('different-object', 'two threads fetched different calendars '
                'for one name (%s)' % name)
    for name, w in sorted({(o[0], o[1]) for th in spec['threads']
                           for _, o in th})[:1]:
        d = build.compare(build.make(name, w), name, w)
        if d:
            bad('different-calendar', 'afterwards: ' + d)
    out['sums']['constructions_compared'] = len(done) + 1
    out['sets']['exchanges_built'] = [d[1] for d in done]
    out['nontrivial'] = out['sums'].get('preemptions', 0) > 0
    out['sample'] = spec
    return out


def shrink(spec):
    return common.shrink_threads(spec)
