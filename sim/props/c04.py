"""C04: the registry is linearizable."""
from .. import model, runner, sched
from . import c03, common, reg

ID = 'C04'
LEVEL = 'exploration'
PLAN = {'quick': (14000, 60), 'thorough': (600000, 800)}
CHUNK = 25
RULE = ('A run executes 2-4 threads with 1-4 registry operations each over 4 '
        'names, with slow, failing, fails-once and re-entrant constructors, '
        'under a seeded schedule; or every single-preemption schedule of two '
        'operations. The history, extended by reads of every name at the end, '
        'must have a linearization. Non-trivial: at least one preemption '
        'inside an operation. Distinct: by digest of the (thread, site) '
        'trace.')
REAL = ['trading_calendars.calendar_utils and errors (working tree)']
STUBS = ['thread scheduling', 'locks created by the package',
         'calendar objects (token subclasses of TradingCalendar)',
         'calendar constructors (scripted)', 'wall clock']
ASSUMPTIONS = ['Preemption happens between the reads, writes and calls of the '
               'package\'s own functions; single dict operations are atomic.']
warm = c03.warm


def recheck(i):
    return i % 200 == 7


def adequate(cover):
    return cover.sums.get('preemptions', 0) > 1000


def generate(rng, i, tier):
    use_global = rng.random() < 0.4
    init = reg.gen_init(rng)
    focus = rng.sample(reg.NAMES, rng.choice([1, 2, 2, 4]))

    def op():
        while True:
            o = reg.gen_op(rng, not use_global)
            if len(o) == 1 or o[1] in focus:
                return o
    if i % 8 == 4:
        # A fetch by alias, during which the chain behind it changes twice.
        a, b, c = sorted(rng.sample(reg.NAMES, 3))
        init['als'][a] = b
        for part in ('cals', 'facts'):
            init[part].pop(a, None)
        for n in (b, c):
            for part in ('cals', 'facts', 'als'):
                init[part].pop(n, None)
            if rng.random() < 0.5:
                init['cals'][n] = 'i' + n
            else:
                init['facts'][n] = rng.choice(['f0', 'f1', 'f2'])
        steps = rng.sample([
            ['alias', a, c, True], ['reg', b, 'o1', True], ['dereg', a],
            ['dereg', b], ['regtype', b, 'f1', True], ['reg', c, 'o2', True],
            ['alias', b, c, True], ['reg', a, 'o3', True], ['get', b],
            ['regtype', a, 'f0', True], ['get', c]], rng.choice([2, 2, 3]))
        first = ['get', a] if rng.random() < 0.7 else op()
        return {'mode': 'enum', 'global': use_global, 'init': init,
                'setup': [['get', n] for n in (a, b, c)
                          if rng.random() < 0.3],
                'threads': [[[0, first]], [[k + 1, o] for k, o in
                                           enumerate(steps)]],
                'strategy': None}
    if i % 4 == 0:
        a, b = op(), op()
        if rng.random() < 0.6:
            a = ['get', rng.choice(focus)]
        return {'mode': 'enum', 'global': use_global, 'init': init,
                'setup': [op() for _ in range(rng.choice([0, 0, 1, 2]))],
                'threads': [[[0, a]], [[1, b]]], 'strategy': None}
    threads = []
    oid = 0
    for _ in range(rng.choice([2, 2, 3, 3, 4])):
        th = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            th.append([oid, op()])
            oid += 1
        threads.append(th)
    return {'mode': 'run', 'global': use_global, 'init': init,
            'setup': [op() for _ in range(rng.choice([0, 0, 1, 2]))],
            'threads': threads,
            'strategy': sched.random_strategy(rng, 25 * oid)}


def one(spec, strategy, out):
    world = reg.World(spec['global'], spec['init'])
    hist = []
    clock = [0]

    def stamp():
        clock[0] += 1
        return clock[0]

    def do(op):
        call = stamp()
        obs = world.do(op)
        hist.append((call, stamp(), op, c03.tup(obs)))

    world.nested = do
    for op in spec['setup']:
        do(op)

    def body(s, ops):
        def f():
            for oid, op in ops:
                s.begin_op(oid)
                do(op)
        return f

    s = sched.Scheduler(strategy, max_steps=50000)
    for ops in spec['threads']:
        s.spawn(body(s, ops))
    s.run()
    common.sched_cover(out, s)
    out['digest'] = s.digest if 'digest' not in out else \
        (out['digest'] * 31 + s.digest) & 0xffffffff
    out['decisions'] = s.decisions
    extra = {'decisions': s.decisions}
    common.check_sched(s, extra)
    for op in c03.READBACK:
        do(op)
    out['sums']['operations'] = out['sums'].get('operations', 0) + len(hist)
    ok = model.linearize(hist, c03.start_state(spec['init']), reg.may_fail)
    if ok is None:
        out['sums']['undecided_histories'] = \
            out['sums'].get('undecided_histories', 0) + 1
    elif not ok:
        v = runner.Violation('not-linearizable', 'history %s from %s' % (
            [h for h in hist if h[2] not in c03.READBACK or h[0] < len(hist)]
            [:12], spec['init']))
        v.extra = extra
        raise v
    return s


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}}
    if spec['mode'] == 'enum' and spec['strategy'] is None:
        for first in (0, 1):
            k = 1
            while k < 300:
                s = one(spec, sched.Explicit(
                    [('f', -1, -1, 0, first),
                     ('p', first, first, k, 1 - first)]), out)
                if not s.switch_sites:
                    break
                out['sums']['enumerated_schedules'] = \
                    out['sums'].get('enumerated_schedules', 0) + 1
                k += 1
    else:
        one(spec, sched.make_strategy(spec['strategy'],
                                      len(spec['threads'])), out)
    fails = [f for f in spec['init']['facts'].values()] + \
        [o[2] for t in spec['threads'] for _, o in t if o[0] == 'regtype']
    for f in fails:
        kind = {'f2': 'slow constructor', 'f3': 'failing constructor',
                'f4': 'constructor failing once'}.get(
                    f, 're-entrant constructor' if f[0] == 'n' else None)
        if kind:
            out['faults'][kind] = out['faults'].get(kind, 0) + 1
    out['nontrivial'] = out['sums'].get('preemptions', 0) > 0
    out['sample'] = spec
    return out


def shrink(spec):
    if spec['mode'] == 'enum':
        yield dict(spec, mode='run')
    for c in common.shrink_threads(spec):
        yield c
    for part in ('cals', 'facts', 'als'):
        for n in sorted(spec['init'][part]):
            init = {k: dict(v) for k, v in spec['init'].items()}
            del init[part][n]
            yield dict(spec, init=init)
