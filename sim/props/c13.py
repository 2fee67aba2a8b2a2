"""C13: a lazily computed attribute."""
import gc
import weakref

from .. import alloc, rt, runner, sched
from . import common

ID = 'C13'
LEVEL = 'exploration'
PLAN = {'quick': (12000, 60), 'thorough': (400000, 600)}
CHUNK = 25
RULE = ('A run has 1-4 threads reading and assigning the lazy attributes of '
        '1-3 objects, dropping and replacing objects and collecting garbage, '
        'under a seeded schedule, with functions that are slow, fail on '
        'chosen calls, read another lazy attribute or return false, equal or '
        'missing values, and with errors injected at scheduling points; or '
        'every single-preemption schedule of two readers. Non-trivial: a '
        'preemption inside a read, an injected error or a collection. '
        'Distinct: by digest of the (thread, site) trace.')
REAL = ['trading_calendars.utils.memoize (working tree)']
STUBS = ['thread scheduling', 'addresses of objects (reused at once)', 'locks created by the package',
         'garbage collection (only at chosen points)',
         'the objects and functions the attribute is declared on']
ASSUMPTIONS = ['Objects compare by identity, as calendars do.',
               'Preemption happens between the reads, writes and calls of the '
               'package\'s own functions; operations of the standard '
               'library\'s weak dictionaries are atomic.']
ATTRS = ['a', 'b', 'c', 'd']
KINDS = sorted(sched.FAULT_KINDS)


class Token(object):
    def __init__(self, owner, attr, n):
        self.key = (owner, attr, n)

    def __repr__(self):
        return 'value%s of %s.%s' % (self.key[2], self.key[0], self.key[1])


class Falsy(Token):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Equal(Token):
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 7


class ComputeError(Exception):
    pass


class ComputeKeyError(KeyError):
    pass


TYPES = {'plain': Token, 'falsy': Falsy, 'equal': Equal}
ERRORS = {'error': ComputeError, 'key': ComputeKeyError,
          'attr': AttributeError}


def lazy():
    try:
        from trading_calendars.utils.memoize import lazyval
        return lazyval
    except ImportError:
        # Moved: what the attributes of calendars are declared with.
        import trading_calendars as tc
        return type(tc.TradingCalendar.__dict__['day'])


def warm():
    import trading_calendars  # noqa
    gc.collect()


def recheck(i):
    return i % 200 == 7


def adequate(cover):
    return cover.sums.get('preemptions', 0) > 500


def generate(rng, i, tier):
    nobj = rng.choice([1, 1, 2, 3])
    # The functions: [value type, slow points, failing calls, read first]
    funcs = {}
    for a in ATTRS:
        funcs[a] = [rng.choice(['plain', 'plain', 'falsy', 'equal', 'none']),
                    rng.choice([0, 0, 1, 3]),
                    {str(n): rng.choice(sorted(ERRORS)) for n in range(3)
                     if rng.random() < 0.15},
                    ATTRS[ATTRS.index(a) + 1]
                    if a != 'd' and rng.random() < 0.2 else None]
    focus = rng.sample(ATTRS, rng.choice([1, 1, 2]))

    def op():
        o = rng.randrange(nobj)
        r = rng.random()
        if r < 0.72:
            return ['read', o, rng.choice(focus)]
        if r < 0.80:
            return ['set', o, rng.choice(focus)]
        if r < 0.88:
            return ['new', o]
        if r < 0.92:
            return ['gc']
        return ['read', o, rng.choice(ATTRS)]
    spec = {'nobj': nobj, 'funcs': funcs, 'faults': []}
    if i % 40 == 21:
        # More objects than a bounded store would hold.
        nobj = spec['nobj'] = rng.choice([12, 100, 300])
        spec['setup'] = [['read', o, focus[0]] for o in range(nobj)]
        threads = [[], []]
        for oid in range(rng.choice([20, nobj])):
            threads[oid % 2].append([oid, op()])
        return dict(spec, mode='run', threads=threads,
                    strategy=sched.random_strategy(rng, 12 * oid))
    if i % 4 == 0:
        a = rng.choice(focus)
        return dict(spec, mode='enum', strategy=None,
                    setup=[op() for _ in range(rng.choice([0, 0, 2]))],
                    threads=[[[0, ['read', 0, a]]], [[1, rng.choice(
                        [['read', 0, a], ['read', 0, a], ['set', 0, a],
                         ['read', nobj - 1, a], ['gc']])]]])
    threads = []
    oid = 0
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        th = []
        for _ in range(rng.randint(1, 6)):
            th.append([oid, op()])
            oid += 1
        threads.append(th)
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            t = rng.randrange(len(threads))
            faults.append([t, rng.choice(threads[t])[0], rng.randint(1, 16),
                           rng.choice(KINDS)])
    return dict(spec, mode='run', threads=threads, faults=faults,
                setup=[op() for _ in range(rng.choice([0, 0, 2, 4]))],
                strategy=sched.random_strategy(rng, 12 * oid))


class World(object):
    def __init__(self, spec):
        self.spec = spec
        self.now = 0
        self.reads = []         # [call, return or None, obj, attr, outcome]
        self.computed = []      # [start, end, obj, attr, outcome]
        self.count = {}
        self.sets = []
        self.tokens = []
        self.serial = 0
        self.dead = []
        lazyval = lazy()
        ns = {}
        for a in ATTRS:
            def f(obj, a=a):
                return self.compute(obj, a)
            f.__name__ = a
            ns[a] = lazyval(f)
        ns['__init__'] = lambda obj, tag: setattr(obj, 'tag', tag)
        self.cls = alloc.watch(type('Lazy', (object,), ns))
        self.objs = [None] * spec['nobj']
        self.refs = {}
        for o in range(spec['nobj']):
            self.new(o)

    def stamp(self):
        self.now += 1
        return self.now

    def new(self, o):
        self.serial += 1
        obj = self.cls('obj%d' % self.serial)
        self.refs[obj.tag] = weakref.ref(obj)
        self.objs[o] = obj

    def compute(self, obj, attr):
        kind, slow, fails, first = self.spec['funcs'][attr]
        n = self.count.get((obj.tag, attr), 0)
        self.count[(obj.tag, attr)] = n + 1
        rec = [self.stamp(), None, obj.tag, attr, None]
        self.computed.append(rec)
        try:
            for k in range(slow):
                rt.y(-2 - k)
            if first is not None:
                self.read(obj, first)
            if str(n) in fails:
                e = ERRORS[fails[str(n)]]('call %d' % n)
                rec[4] = ('error', id(e), e)
                raise e
            if kind == 'none':
                rec[4] = ('value', id(None), None)
                return None
            t = TYPES[kind](obj.tag, attr, n)
            # Only what tells the value apart, so that it can be reclaimed.
            rec[4] = ('value', t.key, None)
            self.tokens.append((obj.tag, weakref.ref(t)))
            return t
        finally:
            rec[1] = self.stamp()

    def read(self, obj, attr):
        rec = [self.stamp(), None, obj.tag, attr, None]
        self.reads.append(rec)
        try:
            v = getattr(obj, attr)
        except sched.INJECTED as e:
            rec[4] = ('aborted', None)
            rec[1] = self.stamp()
            raise
        except Exception as e:
            rec[4] = ('error', id(e), e)
            rec[1] = self.stamp()
            raise
        if v is None:
            rec[4] = ('value', id(None))
        else:
            rec[4] = ('value', v.key if isinstance(v, Token) else repr(v))
        rec[1] = self.stamp()
        return v

    def do(self, op):
        if op[0] == 'gc':
            gc.collect()
        elif op[0] == 'new':
            self.new(op[1])
        elif op[0] == 'read':
            obj = self.objs[op[1]]
            try:
                self.read(obj, op[2])
            except sched.INJECTED:
                pass
            except Exception:
                pass
        else:
            obj = self.objs[op[1]]
            try:
                setattr(obj, op[2], 'assigned')
            except sched.INJECTED:
                pass
            except AttributeError:
                pass
            except Exception as e:
                self.sets.append('%s.%s: assignment raised %s' % (
                    obj.tag, op[2], type(e).__name__))
            else:
                self.sets.append('%s.%s: assignment accepted'
                                 % (obj.tag, op[2]))


def check(world):
    """None or (kind, text)."""
    if world.sets:
        return 'assignment', world.sets[0]
    by = {}
    for r in world.reads:
        by.setdefault((r[2], r[3]), ([], []))[0].append(r)
    for c in world.computed:
        by.setdefault((c[2], c[3]), ([], []))[1].append(c)
    for (tag, attr), (reads, comps) in sorted(by.items()):
        who = '%s.%s' % (tag, attr)
        values = {}
        for c in sorted(comps, key=lambda c: c[1]):
            if c[4] and c[4][0] == 'value':
                values.setdefault(c[4][1], c)
        errors = {c[4][1] for c in comps if c[4] and c[4][0] == 'error'}
        settled = None
        for r in sorted(reads, key=lambda r: r[1]):
            if r[4][0] == 'value':
                c = values.get(r[4][1])
                if c is None:
                    return 'foreign-value', '%s gave %r, which was not ' \
                        'computed for it' % (who, r[4][1])
                if c[1] > r[1]:
                    return 'foreign-value', '%s gave a value before it was ' \
                        'computed' % who
            elif r[4][0] == 'error':
                if r[4][1] not in errors and not nested_error(world, r):
                    return 'foreign-error', '%s raised %s: %s, which its ' \
                        'function did not' % (who, type(r[4][2]).__name__,
                                              r[4][2])
        for r in sorted(reads, key=lambda r: r[1]):
            if r[4][0] != 'value':
                continue
            if any(o is not r and o[0] < r[1] and r[0] < o[1]
                   for o in reads):
                continue
            settled = r
            break
        if settled:
            for o in reads:
                if o[0] > settled[1] and o[4][0] != 'aborted' and \
                        o[4][:2] != settled[4][:2]:
                    return 'changed', '%s was %r, later %r' % (
                        who, settled[4], o[4][:2])
            for c in comps:
                if c[0] > settled[1]:
                    return 'computed-again', '%s was settled as %r and its ' \
                        'function was called again' % (who, settled[4])
        # A failed or aborted computation stores nothing: the value of a read
        # comes from a computation that returned.
        for r in reads:
            if r[4][0] == 'error' and not any(
                    c[0] > r[0] and c[1] < r[1] for c in comps) and \
                    not nested_error(world, r):
                return 'stored-error', '%s raised without calling its ' \
                    'function' % who
    return None


def nested_error(world, r):
    """Did the error come from a lazy attribute its function reads?"""
    return any(c[4] and c[4][0] == 'error' and c[4][1] == r[4][1]
               for c in world.computed)


def one(spec, strategy, out):
    world = World(spec)
    for op in spec['setup']:
        world.do(op)

    def body(s, ops):
        def f():
            for oid, op in ops:
                s.begin_op(oid)
                world.do(op)
        return f

    s = sched.Scheduler(strategy, max_steps=50000, faults=spec['faults'])
    for ops in spec['threads']:
        s.spawn(body(s, ops))
    s.run()
    common.sched_cover(out, s)
    out['digest'] = s.digest if 'digest' not in out else \
        (out['digest'] * 31 + s.digest) & 0xffffffff
    out['decisions'] = s.decisions
    extra = {'decisions': s.decisions}
    common.check_sched(s, extra)
    for o in range(spec['nobj']):
        for a in ATTRS:
            for _ in range(2):
                world.do(['read', o, a])
    bad = check(world)
    if bad:
        v = runner.Violation(*bad)
        v.extra = extra
        raise v
    out['sums']['reads'] = out['sums'].get('reads', 0) + len(world.reads)
    out['sums']['computations'] = \
        out['sums'].get('computations', 0) + len(world.computed)
    return s


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}}
    if spec['mode'] == 'enum' and spec['strategy'] is None:
        for first in (0, 1):
            k = 1
            while k < 200:
                s = one(spec, sched.Explicit(
                    [('f', -1, -1, 0, first),
                     ('p', first, first, k, 1 - first)]), out)
                if not s.switch_sites:
                    break
                out['sums']['enumerated_schedules'] = \
                    out['sums'].get('enumerated_schedules', 0) + 1
                k += 1
    else:
        one(spec, sched.make_strategy(spec['strategy'],
                                      len(spec['threads'])), out)
    ops = [o for t in spec['threads'] for _, o in t] + spec['setup']
    n = sum(1 for o in ops if o[0] == 'gc')
    if n:
        out['faults']['garbage collection'] = n
    out['sums']['addresses_reused'] = alloc.reused[0]
    out['nontrivial'] = out['sums'].get('preemptions', 0) > 0 or \
        bool(out['faults'])
    out['sample'] = spec
    return out


def shrink(spec):
    if spec['mode'] == 'enum':
        yield dict(spec, mode='run')
    for c in common.shrink_threads(spec):
        yield c
    for a in ATTRS:
        if spec['funcs'][a] != ['plain', 0, {}, None]:
            yield dict(spec, funcs=dict(spec['funcs'],
                                        **{a: ['plain', 0, {}, None]}))
