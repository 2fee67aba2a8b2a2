"""C10: dropped calendars are reclaimed and never lend their data."""
import gc
import weakref

from .. import alloc, model, runner, sched
from . import build, common
from .common import T

ID = 'C10'
LEVEL = 'exploration'
PLAN = {'quick': (4000, 75), 'thorough': (100000, 800)}
CHUNK = 4
RULE = ('A run builds, queries, registers, fetches, deregisters and drops 1-4 '
        'calendars of different kinds and windows in 8-40 steps, with garbage '
        'collections between and inside the steps, errors injected into some '
        'of them, and a simulated allocator that gives a new calendar the '
        'address of a collected one. Every answer must be the one of the '
        'calendar asked; after each collection, calendars that nobody refers '
        'to, and what was computed for them, must be gone. Non-trivial: a '
        'calendar was collected after it had been queried. Distinct: by '
        'digest of executed code sites.')
REAL = ['trading_calendars (whole package, from the working tree)', 'pandas',
        'numpy', 'pytz']
STUBS = ['garbage collection (only at chosen points)',
         'addresses of calendars (reused at once)', 'wall clock',
         'default year range in which pandas lists holidays (2010-2030)']
ASSUMPTIONS = ['Collections strike between the reads, writes and calls of the '
               'package\'s own functions.']
KINDS = ['SYN', 'SYNB', '24/5', '24/7', 'XSHG', 'XBOM', 'XSES', 'CMES',
         'us_futures']
CHEAP = ['SYN', 'SYNB', '24/5', '24/7', 'XSHG']
WINDOWS = [('2018-11-15', '2019-01-21'), ('2018-12-03', '2019-01-04'),
           ('2018-12-20', '2019-02-15'), ('2019-06-20', '2019-08-01')]
COLLECTIONS = 60
M = {}
SNAP = {}
POOL = {}


def cls_of(kind):
    return build.cls_of(kind)


def make(kind, w):
    a, b = WINDOWS[w]
    return cls_of(kind)(start=T(a), end=T(b))


def warm():
    import trading_calendars as tc
    build.narrow()
    for kind in KINDS:
        for w in range(len(WINDOWS)):
            cal = make(kind, w)
            M[kind, w] = model.CalendarModel.of(cal, kind != 'us_futures')
            SNAP[kind, w] = model.snapshot(cal)
            del cal
    alloc.watch(tc.TradingCalendar)
    gc.collect()
    gc.collect()


def recheck(i):
    return i % 97 == 7


def adequate(cover):
    return cover.sums.get('calendars_reclaimed', 0) > 200


def generate(rng, i, tier):
    nslots = rng.choice([1, 2, 3, 4])
    kinds = rng.sample(KINDS if i % 2 else CHEAP, rng.choice([1, 1, 2, 3]))
    held = {}
    reg = {}
    ops = []
    faulty = rng.choice([0, 0, 0.15])
    gcs = rng.choice([0.05, 0.15, 0.3])

    def fault():
        if rng.random() < faulty:
            return [rng.randint(1, 60), rng.choice(sorted(
                sched.FAULT_KINDS))]
        if rng.random() < gcs:
            return [rng.choice([1, 2, 3, rng.randint(1, 200)]), 'gc']
        return None

    # Queries about the same minutes of every window find lent answers.
    shared = model.hot_pool(M[kinds[0], 1], rng, 4)
    for _ in range(rng.randint(8, 40)):
        s = rng.randrange(nslots)
        r = rng.random()
        if s not in held or r < 0.15:
            kw = [rng.choice(kinds), rng.randrange(len(WINDOWS))]
            ops.append(['build', s, kw, fault()])
            held[s] = kw
        elif r < 0.25:
            ops.append(['drop', s])
            del held[s]
        elif r < 0.32:
            ops.append(['gc'])
        elif r < 0.50:
            n = rng.choice('ab')
            what = rng.random()
            if what < 0.4:
                ops.append(['register', n, s])
                reg[n] = held[s]
            elif what < 0.6:
                kw = [rng.choice(kinds), rng.randrange(len(WINDOWS))]
                ops.append(['regtype', n, kw])
                reg[n] = kw
            elif what < 0.8 and n in reg:
                ops.append(['fetch', n, s])
                held[s] = reg[n]
            elif what < 0.92:
                ops.append(['deregister', n])
                reg.pop(n, None)
            else:
                ops.append(['clear'])
                reg.clear()
        else:
            m = M[tuple(held[s])]
            pool = [x for x in shared if m.o[0] < x < m.c[-1]] \
                if rng.random() < 0.6 else []
            pool = pool or model.hot_pool(m, rng, 3)
            if rng.random() < 0.15:
                ops.append(['snapshot', s])
            else:
                q = model.gen_query(m, rng, pool, None, 0.1)
                if q[0] == 'execution_minutes_for_sessions_in_range':
                    q = ['all_minutes']
                ops.append(['query', s, q, fault(), held[s]])
    return {'ops': ops}


class World(object):
    def __init__(self, out):
        import trading_calendars
        self.tc = trading_calendars
        self.out = out
        # Not a dict, which may go on holding what was taken out of it.
        self.slots = [None] * 4     # (calendar, key, number)
        self.reg = {}               # name -> (key, number or None) : registry
        self.refs = {}              # number -> [key, weak references]
        self.asked = set()
        self.n = 0

    def count(self, k, n=1):
        self.out['sums'][k] = self.out['sums'].get(k, 0) + n

    def adopt(self, s, cal, key):
        for num, (_, refs) in self.refs.items():
            if refs[0][1]() is cal:
                self.slots[s] = (cal, key, num)
                return num
        self.n += 1
        self.refs[self.n] = [key, [('calendar', weakref.ref(cal))]]
        self.slots[s] = (cal, key, self.n)
        return self.n

    def watch(self, num, what, obj):
        try:
            r = weakref.ref(obj)
        except TypeError:
            return
        refs = self.refs[num][1]
        if not any(n == what and x() is obj for n, x in refs):
            refs.append((what, r))

    def guarded(self, fault, fn):
        """fn() with an error or a collection at a scheduling point."""
        if fault is None:
            fp = sched.FaultPoint()
        elif fault[1] == 'gc':
            fp = sched.FaultPoint(fault[0], None, gc.collect)
        else:
            fp = sched.FaultPoint(fault[0], fault[1])
        try:
            with fp:
                return fn(), fp
        except sched.INJECTED:
            return None, fp
        except Exception as e:
            if fp.fired is not None and fault[1] != 'gc':
                return None, fp
            return e, fp
        finally:
            self.out['digest'] = (self.out['digest'] * 31 +
                                  fp.digest) & 0xffffffff
            if fp.fired is not None:
                k = 'garbage collection inside a call' \
                    if fault[1] == 'gc' else fault[1]
                self.out['faults'][k] = self.out['faults'].get(k, 0) + 1

    def do(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])

    def do_build(self, s, key, fault):
        key = tuple(key)
        self.slots[s] = None
        cal, fp = self.guarded(fault, lambda: make(*key))
        if isinstance(cal, Exception):
            raise runner.Violation('build-failed', '%s: %s: %s' % (
                key, type(cal).__name__, str(cal)[:200]))
        if cal is not None:
            self.adopt(s, cal, key)

    def do_drop(self, s):
        self.slots[s] = None

    def do_gc(self):
        # Objects of C extensions go a link of the chain per collection.
        alive = {v[2] for v in self.slots if v} | \
            {v[1] for v in self.reg.values()}
        for n in range(COLLECTIONS):
            gc.collect()
            if not any(r() is not None for num in self.refs
                       if num not in alive for _, r in self.refs[num][1]):
                break
        self.count('collections', n + 1)
        self.out['faults']['garbage collection'] = \
            self.out['faults'].get('garbage collection', 0) + 1
        for num in sorted(self.refs):
            if num in alive:
                continue
            key, refs = self.refs.pop(num)
            left = [what for what, r in refs if r() is not None]
            if left:
                raise runner.Violation(
                    'not-reclaimed', 'a dropped %s calendar left behind: %s'
                    % (key, left))
            self.count('calendars_reclaimed')
            if num in self.asked:
                self.count('reclaimed_after_queries')

    def do_register(self, n, s):
        if self.slots[s] is None:
            return
        cal, key, num = self.slots[s]
        self.tc.register_calendar('sim-' + n, cal, force=True)
        self.reg[n] = (key, num)

    def do_regtype(self, n, key):
        key = tuple(key)
        self.tc.register_calendar_type('sim-' + n, lambda: make(*key),
                                       force=True)
        self.reg[n] = (key, None)

    def do_fetch(self, n, s):
        if n not in self.reg:
            return
        cal = self.tc.get_calendar('sim-' + n)
        model.table(cal)
        key, num = self.reg[n]
        got = self.adopt(s, cal, key)
        if num is not None and got != num:
            raise runner.Violation('different-object', 'name %s gave another '
                                   'calendar than before' % n)
        self.reg[n] = (key, got)

    def do_deregister(self, n):
        self.tc.deregister_calendar('sim-' + n)
        self.reg.pop(n, None)

    def do_clear(self):
        self.tc.clear_calendars()
        self.reg.clear()

    def do_snapshot(self, s):
        if self.slots[s] is None:
            return
        cal, key, num = self.slots[s]
        self.asked.add(num)
        snap = model.snapshot(cal)
        if snap != SNAP[key]:
            raise runner.Violation('lent', '%s differs in %s' % (
                key, [k for k in snap if snap[k] != SNAP[key][k]]))
        self.watch_computed(cal, num)

    def watch_computed(self, cal, num):
        self.watch(num, 'schedule', cal.schedule)
        self.watch(num, 'all_minutes', cal.all_minutes)
        self.watch(num, 'day', cal.day)
        for k, v in sorted(vars(cal).items()):
            # Shared constants are not computed for the calendar.
            if type(v).__module__.split('.')[0] in ('pandas', 'numpy') and \
                    not any(getattr(c, k, None) is v
                            for c in type(cal).__mro__):
                self.watch(num, k, v)

    def do_query(self, s, q, fault, asked):
        if self.slots[s] is None:
            return
        cal, key, num = self.slots[s]
        if list(key) != list(asked):
            # The build that was to bring that calendar here was cut short.
            return
        self.asked.add(num)
        got, fp = self.guarded(fault, lambda: model.ask(cal, q, []))
        if isinstance(got, Exception):
            got = model.ERR
        self.count('queries')
        if got is None or (fp.fired is not None and fault[1] != 'gc'
                           and got == model.ERR):
            return
        want = M[key].answer(q)
        if got != want:
            raise runner.Violation('lent', '%s%s answered %s, its schedule '
                                   'says %s' % (key, q, got, want))
        if len(self.refs[num][1]) < 2:
            self.watch_computed(cal, num)


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}, 'digest': 0}
    world = World(out)
    r0 = alloc.reused[0]
    for op in spec['ops']:
        world.do(op)
    for s in range(4):
        world.do(['snapshot', s])
    # At the end everything is dropped.
    world.slots[:] = [None] * 4
    for n in sorted(world.reg):
        world.do(['deregister', n])
    world.do(['gc'])
    out['sums']['addresses_reused'] = alloc.reused[0] - r0
    out['nontrivial'] = out['sums'].get('reclaimed_after_queries', 0) > 0
    out['sample'] = {'ops': spec['ops'][:12]}
    return out


def shrink(spec):
    for c in runner.ddmin_candidates(spec['ops']):
        yield dict(spec, ops=c)
    for i, o in enumerate(spec['ops']):
        if o[0] in ('build', 'query') and o[3]:
            yield dict(spec, ops=spec['ops'][:i] + [o[:3] + [None] + o[4:]] +
                       spec['ops'][i + 1:])
