"""C05: an aborted construction leaves nothing behind."""
from .. import instrument, runner, sched
from . import build

ID = 'C05'
LEVEL = 'fault_enumeration'
PLAN = {'quick': (2400, 75), 'thorough': (60000, 800)}
CHUNK = 2
RULE = ('A run aborts 1-3 constructions of a calendar (class called directly '
        'or fetched by name) with an error at a scheduling point, half of the '
        'time the first execution of a random code site; then it compares '
        'process-wide state and repeats the construction, and one of another '
        'window or exchange, and compares with constructions made alone in a '
        'fresh process. Run i takes exchange i modulo their number. '
        'Non-trivial: an injected error fired inside a construction. '
        'Distinct: by digest of the code sites executed up to the error.')
REAL = ['trading_calendars (whole package, from the working tree)', 'pandas',
        'numpy', 'pytz']
STUBS = ['wall clock', 'locks created by the package',
         'default year range in which pandas lists holidays (2010-2030 '
         'instead of 1970-2200)']
ASSUMPTIONS = ['Errors strike between the reads, writes and calls of the '
               'package\'s own functions, not inside pandas/numpy.']
KINDS = sorted(sched.FAULT_KINDS)


def warm():
    import trading_calendars  # noqa
    build.compute_refs()


def recheck(i):
    return i % 197 == 7


def adequate(cover):
    return sum(cover.faults.values()) > 50


def generate(rng, i, tier):
    names = build.NAMES
    name = build.some_name(rng, i - i // 4)
    if i % 4 == 3:
        # They have every kind of special day.
        name = ('SYN', 'SYNB')[i // 4 % 2]
    w = rng.randrange(2)
    aborts = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = build.some_point(rng, build.REF[(name, w)])
        aborts.append([k, rng.choice(KINDS)])
    other = name if rng.random() < 0.1 else rng.choice(names)
    return {'name': name, 'w': w, 'aborts': aborts,
            'registry': rng.random() < 0.5,
            'then': [[name, w], [other, rng.randrange(2)]]}


def execute(spec):
    import trading_calendars as tc
    out = {'sums': {}, 'sets': {}, 'faults': {}, 'digest': 0}
    name, w = spec['name'], spec['w']
    reg = 'sim-calendar'
    if spec['registry']:
        tc.register_calendar_type(reg, lambda: build.make(name, w))

        def construct():
            return tc.get_calendar(reg)
    else:
        def construct():
            return build.make(name, w)
    before = build.process_state()
    cal = None
    for k, kind in spec['aborts']:
        fp = sched.FaultPoint(k, kind)
        cal = None
        try:
            with fp:
                cal = construct()
        except sched.INJECTED:
            pass
        except Exception as e:
            if fp.fired is None:
                raise runner.Violation(
                    'build-failed', '%s: %s without any injected error: %s'
                    % (name, type(e).__name__, e))
        if fp.fired is not None:
            out['faults'][kind] = out['faults'].get(kind, 0) + 1
            out['sets'].setdefault('fault_sites', []).append(fp.fired)
        out['digest'] = (out['digest'] * 31 + fp.digest + k) & 0xffffffff
        out['sums']['scheduling_points'] = \
            out['sums'].get('scheduling_points', 0) + fp.n
        where = 'after %s was aborted (%s) at point %d, %s' % (
            name, kind, k, instrument.site_name(fp.fired)
            if fp.fired is not None else 'not reached')
        diff = build.diff_state(before, build.process_state())
        if diff:
            raise runner.Violation('process-state', '%s: %s' % (where, diff))
        if cal is not None and fp.fired is not None and \
                kind == 'interrupt':
            # Of the others, pandas handles some by trying in another way.
            raise runner.Violation('swallowed', '%s: the caller got a '
                                   'calendar instead of the error' % where)
        if cal is not None:
            d = build.compare(cal, name, w)
            if d:
                raise runner.Violation('different-calendar',
                                       '%s: %s' % (where, d))
            if spec['registry']:
                break
    out['nontrivial'] = bool(out['faults'])
    for n2, w2 in spec['then']:
        try:
            if (n2, w2) == (name, w) and spec['registry']:
                cal = construct()
                if construct() is not cal:
                    raise runner.Violation(
                        'different-object', '%s: two fetches of one name gave '
                        'two calendars' % where)
            else:
                cal = build.make(n2, w2)
        except Exception as e:
            raise runner.Violation('build-failed', '%s: building %s raised %s:'
                                   ' %s' % (where, n2, type(e).__name__, e))
        out['sums']['constructions_compared'] = \
            out['sums'].get('constructions_compared', 0) + 1
        d = build.compare(cal, n2, w2)
        if d:
            raise runner.Violation('different-calendar', '%s: %s' % (where, d))
    diff = build.diff_state(before, build.process_state())
    if diff:
        raise runner.Violation('process-state', '%s: %s' % (where, diff))
    out['sets']['exchanges_aborted'] = [name]
    out['sample'] = spec
    return out


def shrink(spec):
    for c in runner.ddmin_candidates(spec['aborts']):
        if c:
            yield dict(spec, aborts=c)
    for c in runner.ddmin_candidates(spec['then']):
        yield dict(spec, then=c)
    if spec['registry']:
        yield dict(spec, registry=False)
