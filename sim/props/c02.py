"""C02: query answers do not depend on history, failures or aborted queries."""
import gc

from .. import alloc, model, runner, sched
from . import c01, common
from .c01 import W

ID = 'C02'
LEVEL = 'fault_enumeration'
PLAN = {'quick': (6000, 60), 'thorough': (300000, 800)}
CHUNK = 12
RULE = ('A run asks 3-40 queries of 1-3 calendars in sequence (some runs: up '
        'to 1500 of one calendar, with earlier ones repeated), some of them '
        'failing by themselves, some cut short by an error injected at a '
        'scheduling point; enumerated runs inject every error kind at every '
        'scheduling point of one query and probe after each. Non-trivial: an '
        'injected error fired, or a repeated query followed a different one. '
        'Distinct: by the digest of the executed code sites and answers.')
REAL = c01.REAL
STUBS = ['wall clock', 'addresses of arguments (reused at once, in some runs)']
ASSUMPTIONS = [
    'Errors strike between the reads, writes and calls of the package\'s own '
    'functions, not inside pandas/numpy.',
    'The reference answers come from the published schedule of the same '
    'calendar, read before the run.',
]
KINDS = sorted(sched.FAULT_KINDS)
SNAP = {}
L = {}
TWIN = {}
FORM = {}
# One with more sessions than any cache of recent answers would hold.
LARGE = ('XNYS-large', 'XNYS', '2017-01-02', '2019-12-31')
BY_SESSION = ['next_session_label', 'previous_session_label', 'session_open',
              'session_close', 'session_break_start', 'session_break_end',
              'open_and_close_for_session', 'is_session',
              'break_start_and_end_for_session', 'minutes_for_session',
              'execution_minutes_for_session', 'sessions_window',
              'session_distance', 'minutes_count_for_sessions_in_range',
              'sessions_in_range', 'session_opens_in_range',
              'session_closes_in_range']
BY_MINUTE = ['minute_to_session_label', 'is_open_on_minute', 'next_open',
             'next_close', 'previous_open', 'previous_close', 'next_minute',
             'previous_minute', 'minutes_window', 'minutes_in_range',
             'minute_index_to_session_labels']


def of(key):
    return W[key] if key in W else L[key]


def warm():
    c01.warm()
    key, cls, a, b = LARGE
    for into in (L, TWIN):
        cal = common.factories()[cls](start=c01.T(a), end=c01.T(b))
        into[key] = (cal, model.CalendarModel.of(cal))
    L[key][1].answer(['all_minutes'])
    # From twins, so that the calendars themselves have not been asked.
    c01.build_cals(into=TWIN)
    for key, (cal, _) in TWIN.items():
        SNAP[key] = model.snapshot(cal)
        FORM[key] = form(cal)


def form(cal):
    """What else is visible of the schedule."""
    s = cal.schedule
    return [str(x) for x in (s.dtypes.to_dict(), s.index.name, s.index.freq,
                             s.index.tz, s.columns.name, s.shape)]


def recheck(i):
    return i % 150 == 7


def adequate(cover):
    return sum(cover.faults.values()) > 1000


def gen_long(rng, i):
    """So many queries that whatever is kept of them has to be given up."""
    key = rng.choice(list(W) + [LARGE[0]] * 8)
    m = of(key)[1]
    names = BY_SESSION if i % 2 else BY_MINUTE
    odd = sorted(set(names) & set(c01.STATE))
    names = [rng.choice(odd) if odd and rng.random() < 0.5
             else names[i // 2 % len(names)]] + (
        [] if rng.random() < 0.7 else rng.sample(names, 2))
    if not m.plain_execution:
        names = [n for n in names if not n.startswith('exec')] or ['next_open']
    slow = any('minutes' in n or 'index' in n or 'range' in n for n in names)
    n = rng.choice([100, 300, 300 if slow else 1500])
    pool = model.hot_pool(m, rng, n)
    span = rng.choice([10, 40, 150, 600])
    faulty = rng.choice([0, 0, 0.02])
    ops = []
    for j in range(n):
        if ops and rng.random() < 0.4:
            q = rng.choice(ops[-span:])[2]
        else:
            q = model.gen_query(m, rng, pool, names, 0.02)
        ops.append([j, key, q, [rng.randint(1, 20), rng.choice(KINDS)]
                    if rng.random() < faulty else None])
    return {'mode': 'seq', 'ops': ops}


def generate(rng, i, tier):
    if i % 30 == 14:
        return gen_long(rng, i // 30)
    if i % 40 == 19:
        # Arguments that die: the next one gets the address of the last.
        key = rng.choice(list(W))
        m = W[key][1]
        pool = model.hot_pool(m, rng, 6)
        name = 'minute_index_to_session_labels'
        if i % 80 == 19:
            name = rng.choice([n for n in model.Q_NAMES
                               if n not in model.ATTRS and n != 'day_after'])
            if name.startswith('execution') and not m.plain_execution:
                name = 'minutes_for_session'
        return {'mode': 'seq', 'addr': True, 'ops': [
            [n, key, model.gen_query(m, rng, pool, [name], 0), None]
            for n in range(rng.randint(3, 6))]}
    if i % 3 == 0:
        keys = [rng.choice(list(W))]
        m = W[keys[0]][1]
        pool = model.hot_pool(m, rng, 3)
        name = model.Q_NAMES[(i // 3) % len(model.Q_NAMES)]
        if (i // 3) % 2:
            name = rng.choice([c01.some_stateful(rng),
                               c01.some_stateful(rng), name])
        if name == 'execution_minutes_for_sessions_in_range':
            name = 'execution_minutes_for_session'
        if name.startswith('execution') and not m.plain_execution:
            name = 'minutes_for_session'
        q = model.gen_query(m, rng, pool, [name], 0)
        probes = [q] + [model.gen_query(m, rng, pool, [name], 0)
                        for _ in range(2)]
        probes.append(model.gen_query(m, rng, pool,
                                      ['minute_to_session_label'], 0))
        return {'mode': 'enum', 'key': keys[0], 'query': q, 'probes': probes,
                'kind': rng.choice(KINDS)}
    keys = rng.sample(list(W), rng.choice([1, 1, 2, 3]))
    pools = {k: model.hot_pool(W[k][1], rng, rng.randint(2, 5)) for k in keys}
    ops = []
    failing = rng.choice([0.05, 0.2, 0.5])
    faulty = rng.choice([0, 0.1, 0.3, 0.6])
    names = None
    if rng.random() < 0.4:
        names = rng.sample(model.Q_NAMES, 3) + ['minute_to_session_label',
                                                'next_minute']
    recent = []
    for n in range(rng.randint(3, 40)):
        if recent and rng.random() < 0.35:
            k, q = rng.choice(recent)
        else:
            k = rng.choice(keys)
            q = model.gen_query(W[k][1], rng, pools[k], names, failing)
            recent.append((k, q))
        fault = None
        if rng.random() < faulty:
            fault = [rng.choice([1, 2, 3, 5, 8, rng.randint(1, 60)]),
                     rng.choice(KINDS)]
        ops.append([n, k, q, fault])
    return {'mode': 'seq', 'ops': ops}


def args_unchanged(q, args):
    for a, k in args:
        fresh = model.build_args(q)
        for x, y in zip(list(a) + sorted(k.items()),
                        list(fresh[0]) + sorted(fresh[1].items())):
            if type(x) is not type(y) or model.canon(x) != model.canon(y):
                return False
            if [str(getattr(x, n, None)) for n in ('name', 'freq', 'tz')] != \
                    [str(getattr(y, n, None)) for n in ('name', 'freq',
                                                        'tz')]:
                return False
    return True


def step(key, q, fault, out, what):
    cal, m = of(key)
    args = []
    fp = sched.FaultPoint(fault[0] if fault else None,
                          fault[1] if fault else None)
    got = None
    try:
        with fp:
            got = model.ask(cal, q, args)
    except sched.INJECTED:
        pass
    out['sums']['queries'] = out['sums'].get('queries', 0) + 1
    out['sums']['scheduling_points'] = \
        out['sums'].get('scheduling_points', 0) + fp.n
    out['digest'] = (out['digest'] * 31 + fp.digest) & 0xffffffff
    if fp.fired is not None:
        out['faults'][fault[1]] = out['faults'].get(fault[1], 0) + 1
        out['sets'].setdefault('fault_sites', []).append(fp.fired)
        # An injected error either came out or was absorbed; an answer that
        # came back anyway must still be right.
        if got is None or got == model.ERR:
            got = None
    if got is not None:
        want = m.answer(q)
        if got != want:
            raise runner.Violation(
                'wrong-answer', '%s: %s%s answered %s, the schedule says %s'
                % (what, key, q, got, want))
    if not args_unchanged(q, args):
        raise runner.Violation('argument-changed', '%s: %s%s' % (what, key, q))
    return fp


def check_published(keys):
    for key in keys:
        cal, m = of(key)
        now = model.CalendarModel.of(cal)
        if (now.s, now.o, now.c, now.bs, now.be) != \
                (m.s, m.o, m.c, m.bs, m.be):
            raise runner.Violation('published-changed',
                                   '%s: schedule changed' % key)
        if form(cal) != FORM[key]:
            raise runner.Violation('published-changed', '%s: %s is now %s'
                                   % (key, FORM[key], form(cal)))
        snap = model.snapshot(cal)
        if snap != SNAP[key]:
            raise runner.Violation('published-changed', '%s: %s changed' % (
                key, [k for k in snap if snap[k] != SNAP[key][k]]))


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}, 'digest': 0}
    if spec['mode'] == 'enum':
        key, q = spec['key'], spec['query']
        k = 1
        while k < 500:
            fp = step(key, q, [k, spec['kind']], out,
                      'query aborted at point %d' % k)
            if fp.fired is None:
                break
            for p in spec['probes']:
                step(key, p, None, out,
                     'after %s aborted at point %d' % (q, k))
            k += 1
        out['sums']['enumerated_points'] = k - 1
        keys = [key]
    else:
        done = []
        addr = spec.get('addr')
        model.PLACE[0] = alloc.register if addr else None
        for n, key, q, fault in spec['ops']:
            step(key, q, fault, out, 'after %s' % (done[-1:],))
            done.append([key, q, fault])
            if addr:
                gc.collect()
        if addr:
            model.PLACE[0] = None
            out['sums']['argument_addresses_reused'] = alloc.reused[0]
        keys = sorted(set(o[1] for o in spec['ops']))
    check_published(keys)
    out['nontrivial'] = True
    out['sample'] = spec if len(str(spec)) < 3000 else {
        'mode': 'seq', 'ops': spec['ops'][:8]}
    return out


def shrink(spec):
    if spec['mode'] == 'seq':
        for c in runner.ddmin_candidates(spec['ops']):
            yield dict(spec, ops=c)
        for i, o in enumerate(spec['ops']):
            if o[3]:
                yield dict(spec, ops=spec['ops'][:i] + [o[:3] + [None]]
                           + spec['ops'][i + 1:])
    else:
        for c in runner.ddmin_candidates(spec['probes']):
            yield dict(spec, probes=c)
