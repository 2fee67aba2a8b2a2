"""C18: a process forked while threads are at work can use the package."""
from .. import model, runner, sched
from . import build, c01, common
from .c01 import W

ID = 'C18'
LEVEL = 'exploration'
PLAN = {'quick': (8000, 60), 'thorough': (300000, 800)}
CHUNK = 8
RULE = ('A run has 1-3 threads that query calendars, build calendars of all '
        'exchanges and use the registry, under a seeded schedule. At a seeded '
        'scheduling point of one of them another thread forks: in the child '
        'the other threads do not exist, and what they held or half did '
        'stays. The package\'s own fork handlers run and the process id '
        'changes. The child then queries, registers, fetches and builds; '
        'nothing may block and every result is compared with the model, the '
        'name table and calendars built alone in a fresh process. '
        'Non-trivial: at least one thread was inside a call of the package at '
        'the fork. Distinct: by digest of the (thread, site) trace.')
REAL = c01.REAL
STUBS = ['thread scheduling', 'locks created by the package', 'wall clock',
         'fork (other threads vanish, handlers of the package run, new '
         'process id)',
         'default year range in which pandas lists holidays (2010-2030)']
ASSUMPTIONS = ['Preemption happens between the reads, writes and calls of the '
               'package\'s own functions.',
               'The fork happens between two calls of the forking thread.']
KEYS = ['XNYS', 'XHKG', '24/5', 'SYN', 'XHKGs', 'XNYSs', '24/5s', 'SYNs']
BUILDS = []


def warm():
    import trading_calendars  # noqa
    build.compute_refs()
    c01.build_cals(KEYS)
    c01.find_state()
    for cal, m in W.values():
        m.answer(['all_minutes'])
    BUILDS.extend(n for n in build.NAMES if build.COST[n] < 3000)


def recheck(i):
    return i % 150 == 7


def adequate(cover):
    return cover.sums.get('threads_cut_off', 0) > 500


def names_of(t):
    return ['f%d-%d' % (t, k) for k in range(2)]


def gen_op(rng, t, pools, cheap):
    r = rng.random()
    if r < 0.25:
        k = rng.choice(list(pools))
        return ['query', k, model.gen_query(W[k][1], rng, pools[k])]
    if r < 0.45:
        return ['build', rng.choice(cheap), rng.randrange(2)]
    own = names_of(t)
    n = rng.choice(own)
    if r < 0.65:
        return ['get', rng.choice(own + own + ['f-shared', 'f-alias'])]
    if r < 0.75:
        return ['reg', n, rng.choice(KEYS), rng.random() < 0.6]
    if r < 0.87:
        return ['type', n, rng.choice(cheap), rng.randrange(2),
                rng.random() < 0.6]
    if r < 0.93:
        return ['alias', n, rng.choice([own[1 - own.index(n)], 'f-shared',
                                        'f-none']), rng.random() < 0.6]
    return ['remove', n]


def gen_query(rng, i):
    """One thread is cut off inside a query; the child asks the same."""
    names = [n for n in model.Q_NAMES
             if n != 'execution_minutes_for_sessions_in_range']
    name = names[i % len(names)]
    at = rng.choice([rng.randint(1, 10), rng.randint(1, 40)])
    if i % 2:
        # Inside what seems to change something.
        name = c01.some_stateful(rng)
        if name not in names:
            name = 'minute_to_session_label'
        at = ['s', rng.randint(1, c01.STATE.get(name, 1))]
    k = rng.choice(KEYS)
    m = W[k][1]
    if name.startswith('execution') and not m.plain_execution:
        name = 'minutes_for_session'
    pool = model.hot_pool(m, rng, 3)
    q = [model.gen_query(m, rng, pool, [name], 0) for _ in range(2)]
    q += [model.gen_query(m, rng, pool, None, 0)]
    other = rng.choice(KEYS)
    child = [['query', k, x] for x in q] + [
        ['query', other, model.gen_query(
            W[other][1], rng, model.hot_pool(W[other][1], rng, 2),
            [name] if W[other][1].plain_execution else None, 0)]]
    return spec_of([[[0, ['query', k, q[0]]]]],
                   ['24/5', 0], [0, 0], child,
                   ['fork', ['solo'], [0, 0, at]])


def gen_build(rng, i):
    """One thread is cut off inside a construction; the child repeats it."""
    name = build.some_name(rng, i)
    w = rng.randrange(2)
    ref = build.REF[(name, w)]
    k = build.some_point(rng, ref)
    # Waiting for and giving back locks are scheduling points as well.
    k += rng.choice([0, 0, 1, 2, 3, 4, 6])
    named = rng.random() < 0.5
    child = [['get', 'f-alias'] if named else ['build', name, w],
             ['build', rng.choice(BUILDS), rng.randrange(2)]]
    rng.shuffle(child)
    return spec_of([[[0, ['get', 'f-shared'] if named else
                      ['build', name, w]]]], [name, w], [0, 0], child,
                   ['fork', ['solo'], [0, 0, k]])


def spec_of(threads, shared, start, child, strategy):
    return {'threads': threads, 'faults': [], 'shared': shared,
            'start': start, 'after': [[j, op] for j, op in enumerate(child)],
            'strategy': strategy}


def generate(rng, i, tier):
    if i % 4 == 1:
        return gen_query(rng, i // 4)
    if i % 4 == 3:
        return gen_build(rng, i // 4)
    keys = rng.sample(KEYS, 2)
    pools = {k: model.hot_pool(W[k][1], rng, 3) for k in keys}
    names = build.NAMES if rng.random() < 0.3 else BUILDS
    cheap = [names[i % len(names)], rng.choice(BUILDS)]
    n = rng.choice([1, 1, 1, 2, 2, 3])
    oid = 0
    threads = []
    for t in range(n):
        th = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            th.append([oid, gen_op(rng, t, pools, cheap)])
            oid += 1
        threads.append(th)
    t = rng.randrange(n)
    o, op = rng.choice(threads[t])
    r = rng.random()
    if op[0] in ('build', 'get') and r < 0.8:
        ref = build.REF[(op[1], op[2])] if op[0] == 'build' else \
            build.REF[(cheap[0], 0)]
        k = build.some_point(rng, ref)
        k += rng.choice([0, 0, 1, 2, 5, 10])
    else:
        k = rng.choice([rng.randint(1, 12), rng.randint(1, 40)])
    child = []
    # What the threads were doing, and other things.
    for th in threads:
        for _, op in th:
            if rng.random() < 0.7:
                child.append(op)
    for _ in range(rng.randint(1, 3)):
        child.append(gen_op(rng, rng.randrange(n), pools, cheap))
    rng.shuffle(child)
    return spec_of(threads, [cheap[0], rng.randrange(2)],
                   [rng.randrange(3) for _ in range(2 * n)], child,
                   ['fork', sched.random_strategy(rng, 400), [t, o, k]])


class Names(object):
    """The reference: what each name may mean."""
    def __init__(self):
        self.table = {}
        self.loose = set()
        self.objects = {}

    def resolve(self, n):
        """(canonical name, whether an uncertain name was met)"""
        loose = False
        seen = set()
        while True:
            loose = loose or n in self.loose
            e = self.table.get(n)
            if e is None or e[0] != 'alias' or n in seen:
                return n, loose
            seen.add(n)
            n = e[1]

    def apply(self, op):
        kind, n = op[0], op[1]
        if kind == 'remove':
            self.table.pop(n, None)
        elif kind == 'reg':
            self.table[n] = ('object', op[2])
        elif kind == 'type':
            self.table[n] = ('type', op[2], op[3])
        elif kind == 'alias':
            self.table[n] = ('alias', op[2])
        self.objects.pop(n, None)


class World(object):
    def __init__(self, out):
        import trading_calendars as tc
        self.tc = tc
        self.ref = Names()
        self.out = out
        self.factories = {}
        self.where = 'before the fork'

    def factory(self, name, w):
        return lambda: build.make(name, w)

    def call(self, op):
        """Carries out one operation; its result as the reference sees it."""
        tc, kind = self.tc, op[0]
        err = tc.errors
        try:
            if kind == 'query':
                return ['answer', model.ask(W[op[1]][0], op[2])]
            if kind == 'build':
                return ['calendar', build.make(op[1], op[2])]
            if kind == 'get':
                return ['calendar', tc.get_calendar(op[1])]
            if kind == 'reg':
                tc.register_calendar(op[1], W[op[2]][0], force=op[3])
            elif kind == 'type':
                tc.register_calendar_type(op[1], self.factory(op[2], op[3]),
                                          force=op[4])
            elif kind == 'alias':
                tc.register_calendar_alias(op[1], op[2], force=op[3])
            elif kind == 'remove':
                tc.deregister_calendar(op[1])
            return ['done', None]
        except (err.InvalidCalendarName, err.CalendarNameCollision,
                err.CyclicCalendarAlias) as e:
            return ['refused', type(e).__name__]

    def bad(self, kind, op, text):
        raise runner.Violation(kind, '%s: %s %s' % (self.where, op, text))

    def judge(self, op, got):
        """Compares one completed operation with the reference."""
        ref, kind = self.ref, op[0]
        if kind == 'query':
            want = W[op[1]][1].answer(op[2])
            if got[1] != want:
                self.bad('wrong-answer', op, 'answered %s, the schedule says '
                         '%s' % (got[1], want))
        elif kind == 'build':
            d = build.compare(got[1], op[1], op[2])
            if d:
                self.bad('different-calendar', op, d)
        elif kind == 'get':
            n, loose = ref.resolve(op[1])
            e = ref.table.get(n)
            if loose:
                if got == ['refused', 'CyclicCalendarAlias']:
                    self.bad('cycle', op, 'found a cycle of aliases')
                return
            if e is None or e[0] == 'alias':
                if got[0] != 'refused':
                    self.bad('wrong-name', op, 'gave a calendar')
                return
            if got[0] != 'calendar':
                self.bad('wrong-name', op, 'gave %s instead of a calendar'
                         % got[1])
            cal = got[1]
            if e[0] == 'object' and cal is not W[e[1]][0]:
                self.bad('wrong-name', op, 'gave another calendar than the '
                         'registered one')
            if e[0] == 'type':
                d = build.compare(cal, e[1], e[2])
                if d:
                    self.bad('different-calendar', op, d)
            self.note(op, got)
        else:
            n = op[1]
            force = kind == 'remove' or op[-1]
            cyclic = kind == 'alias' and self.cycle(n, op[2])
            if n in ref.loose and not force or \
                    kind == 'alias' and ref.resolve(op[2])[1]:
                if got[0] == 'done':
                    ref.apply(op)
                    ref.loose.discard(n)
                return
            want = 'done'
            if n in ref.table and not force:
                want = 'CalendarNameCollision'
            elif cyclic:
                want = 'CyclicCalendarAlias'
            if (got[1] or got[0]) != want:
                self.bad('wrong-name', op, 'gave %s instead of %s'
                         % (got[1] or got[0], want))
            if want == 'done':
                ref.apply(op)
                ref.loose.discard(n)

    def note(self, op, got):
        """A name that has not changed keeps giving the same object."""
        n, loose = self.ref.resolve(op[1])
        if got[0] == 'calendar' and not loose and \
                self.ref.objects.setdefault(n, got[1]) is not got[1]:
            self.bad('different-object', op, 'gave another calendar than '
                     'before')

    def cycle(self, alias, target):
        seen = set()
        while target not in seen:
            if target == alias:
                return True
            seen.add(target)
            e = self.ref.table.get(target)
            if e is None or e[0] != 'alias':
                return False
            target = e[1]
        return True


def execute(spec):
    import trading_calendars as tc
    import trading_calendars.errors  # noqa
    out = {'sums': {}, 'sets': {}, 'faults': {}}
    world = World(out)
    start = [['type', 'f-shared'] + spec['shared'] + [True],
             ['alias', 'f-alias', 'f-shared', True]]
    for j, what in enumerate(spec['start']):
        n = names_of(j // 2)[j % 2]
        if what == 1:
            start.append(['reg', n, KEYS[j % len(KEYS)], True])
        elif what == 2:
            start.append(['type', n] + spec['shared'] + [True])
    for op in start:
        world.judge(op, world.call(op))
    for th in spec['threads']:
        for _, op in th:
            if op[0] in ('build', 'type'):
                build.cls_of(op[1] if op[0] == 'build' else op[2])
    busy = {}
    after = []

    def work(s, t, ops):
        def f():
            for oid, op in ops:
                s.begin_op(oid)
                busy[t] = op
                got = world.call(op)
                busy.pop(t)
                if op[0] in ('query', 'build'):
                    after.append((op, got))
                elif op[0] == 'get':
                    world.note(op, got)
                else:
                    # No other thread changes this thread's names.
                    world.judge(op, got)
        return f

    def child(s):
        def f():
            gone = s.fork()
            world.where = 'in a child forked while %s' % (
                [busy[t.tid] for t in gone if t.tid in busy] or
                'nothing was going on',)
            out['sums']['threads_cut_off'] = len(
                [t for t in gone if t.tid in busy])
            for op in busy.values():
                if op[0] in ('reg', 'type', 'alias', 'remove'):
                    world.ref.loose.add(op[1])
            busy.clear()
            for oid, op in spec['after']:
                s.begin_op(10000 + oid)
                world.judge(op, world.call(op))
                out['sums']['operations_in_children'] = \
                    out['sums'].get('operations_in_children', 0) + 1
        return f

    n = len(spec['threads'])
    s = sched.Scheduler(sched.make_strategy(spec['strategy'], n + 1),
                        max_steps=2000000)
    for t, ops in enumerate(spec['threads']):
        s.spawn(work(s, t, ops))
    s.spawn(child(s))
    try:
        s.run()
    except runner.Violation as v:
        v.extra = {'decisions': s.decisions}
        raise
    common.sched_cover(out, s)
    out['digest'] = s.digest
    out['decisions'] = s.decisions
    try:
        common.check_sched(s, {'decisions': s.decisions})
    except runner.Violation as v:
        v.detail = '%s: %s' % (world.where, v.detail)
        raise
    for op, got in after:
        world.judge(op, got)
    cut = out['sums'].get('threads_cut_off', 0)
    out['faults']['fork'] = 1
    out['sets']['exchanges_built'] = [o[1] for _, o in spec['after']
                                      if o[0] == 'build']
    out['nontrivial'] = cut > 0
    out['sample'] = spec
    return out


def shrink(spec):
    return common.shrink_threads(spec)
