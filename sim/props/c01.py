"""C01: concurrent queries on shared calendars."""
import copy
import random

from .. import model, rt, runner, sched
from . import common
from .common import T

ID = 'C01'
LEVEL = 'exploration'
PLAN = {'quick': (9000, 70), 'thorough': (400000, 800)}
CHUNK = 12
RULE = ('A run puts 1-2 real calendars in front of 2-4 threads that each ask '
        '1-6 queries about a few shared instants, under a seeded schedule '
        '(random walk, hot sites, PCT) or, for the enumerated runs, under '
        'every single-preemption schedule of a pair of queries. Non-trivial: '
        'at least one preemption happened inside a query. Distinct: by the '
        'rolling digest of the (thread, code site) trace.')
REAL = ['trading_calendars (whole package, from the working tree)', 'pandas',
        'numpy', 'pytz']
STUBS = ['thread scheduling', 'locks created by the package', 'wall clock']
ASSUMPTIONS = [
    'Preemption happens between the reads, writes and calls of the package\'s '
    'own functions; calls into pandas/numpy are atomic.',
    'The reference answers come from the published schedule of the same '
    'calendar, read before the run.',
]

CALS = [
    ('XNYS', 'XNYS', '2020-11-16', '2021-01-08'),
    ('XNYS2', 'XNYS', '2018-06-25', '2018-08-10'),
    ('XHKG', 'XHKG', '2020-11-30', '2021-01-15'),
    ('CMES', 'CMES', '2020-11-16', '2020-12-31'),
    ('us_futures', 'us_futures', '2020-11-16', '2020-12-31'),
    ('24/7', '24/7', '2020-12-01', '2021-01-10'),
    ('24/5', '24/5', '2020-12-01', '2021-01-10'),
    ('XSHG', 'XSHG', '2020-09-01', '2020-10-30'),
    ('SYN', None, '2020-11-30', '2021-01-15'),
]
# Small ones, of which each enumerated schedule can have its own copies.
SMALL = [
    ('XHKGs', 'XHKG', '2020-12-21', '2021-01-08'),
    ('XNYSs', 'XNYS', '2020-12-18', '2020-12-29'),
    ('24/5s', '24/5', '2020-12-01', '2020-12-10'),
    ('SYNs', None, '2020-12-01', '2020-12-17'),
]
W = {}


def build_cals(names=None, into=W):
    fac = common.factories()
    for key, cls, a, b in CALS + SMALL:
        if names is not None and key not in names:
            continue
        make = fac[cls] if cls else common.synthetic(True)
        cal = make(start=T(a), end=T(b))
        into[key] = (cal, model.CalendarModel.of(cal, cls != 'us_futures'))


# Queries that seem to change something -> the most such points met in one.
STATE = {}


def _state(key):
    """How many scheduling points of each query are in stateful functions."""
    rng = random.Random(5)
    m = W[key][1]
    found = {}
    for name in model.Q_NAMES:
        if name.startswith('execution') and not m.plain_execution:
            continue
        for _ in range(4):
            q = model.try_query(m, rng, model.hot_pool(m, rng, 3), name)
            if q is None:
                continue
            n = [0]

            def hook(site):
                n[0] += site in rt.STATEFUL
            rt.set_hook(hook)
            try:
                model.ask(W[key][0], q)
            except Exception:
                pass
            finally:
                rt.set_hook(None)
            found[name] = max(found.get(name, 0), n[0])
    return found


def find_state():
    for found in runner.parallel_map(_state, sorted(W)):
        for name, n in found.items():
            if n:
                STATE[name] = max(n, STATE.get(name, 0))


def some_stateful(rng):
    return rng.choice(sorted(STATE) or ['minute_to_session_label'])


def warm():
    import trading_calendars  # noqa
    build_cals()
    find_state()
    for cal, m in W.values():
        m.answer(['all_minutes'])


def recheck(i):
    return i % 150 == 7


def adequate(cover):
    return cover.sums.get('preemptions', 0) > 1000


def generate(rng, i, tier):
    if i % 3 == 0:
        return gen_enum(rng, i // 3)
    keys = [rng.choice(list(W))]
    if rng.random() < 0.3:
        keys.append(rng.choice([k for k in W if k != keys[0]]))
    n = rng.choice([2, 2, 2, 3, 3, 4])
    pools = {k: model.hot_pool(W[k][1], rng, rng.randint(2, 4)) for k in keys}
    if len(keys) == 2 and keys[0][:4] == keys[1][:4]:
        pools[keys[1]] = pools[keys[0]] = [
            x for k in keys for x in pools[k]]
        pools = {k: [x for x in pools[k]
                     if W[k][1].o[0] < x < W[k][1].c[-1]] or
                 model.hot_pool(W[k][1], rng, 2) for k in keys}
    names = None
    if rng.random() < 0.5:
        names = rng.sample(model.Q_NAMES, rng.randint(1, 4))
        if names == ['execution_minutes_for_sessions_in_range']:
            names.append('minute_to_session_label')
        if rng.random() < 0.4:
            names.append('minute_to_session_label')
        if W[keys[0]][1].has_breaks or not W[keys[0]][1].plain_execution \
                or len(keys) == 2:
            names.append('minute_to_session_label')
            names.append('next_minute')
    ops = rng.randint(1, 6)
    threads = []
    oid = 0
    for t in range(n):
        th = []
        for _ in range(rng.randint(1, ops)):
            k = rng.choice(keys)
            th.append([oid, k, model.gen_query(W[k][1], rng, pools[k], names)])
            oid += 1
        threads.append(th)
    setup = []
    for _ in range(rng.randint(0, 2)):
        k = rng.choice(keys)
        setup.append([k, model.gen_query(W[k][1], rng, pools[k], names)])
    faults = []
    if rng.random() < 0.2:
        t = rng.randrange(n)
        faults.append([t, rng.choice(threads[t])[0], rng.randint(1, 25),
                       rng.choice(sorted(sched.FAULT_KINDS))])
    after = []
    for _ in range(3):
        k = rng.choice(keys)
        after.append([k, model.gen_query(W[k][1], rng, pools[k], names)])
    return {'mode': 'run', 'setup': setup, 'threads': threads, 'after': after,
            'faults': faults,
            'strategy': sched.random_strategy(rng, 30 * oid)}


def gen_enum(rng, j):
    """Every schedule of two queries with at most one preemption."""
    names = [x for x in model.Q_NAMES
             if x != 'execution_minutes_for_sessions_in_range']
    n = len(names)
    if j % 2 == 0:
        # Mostly code that two threads are both in disturbs itself.
        a = b = names[(j // 2) % n]
    elif j % 4 == 1:
        a, b = names[(j // 4 * 7) % n], names[(j // 4 // n + j // 4) % n]
    else:
        a = some_stateful(rng)
        if a not in names:
            a = 'minute_to_session_label'
        b = rng.choice([a, a, rng.choice(names)])
    # Each schedule meets calendars that were never asked, or used ones.
    # (Listing all holidays again for each takes too long.)
    fresh = rng.random() < 0.4 and 'day_after' not in (a, b)
    for _ in range(50):
        k = rng.choice([x[0] for x in SMALL] if fresh else list(W))
        m = W[k][1]
        pool = model.hot_pool(m, rng, 2)
        ok = not ((a.startswith('execution') or b.startswith('execution'))
                  and not m.plain_execution)
        if ok:
            break
    else:
        k, m = 'XNYS', W['XNYS'][1]
    q1 = model.gen_query(m, rng, pool, [a], 0)
    k2 = k
    if fresh and rng.random() < 0.4:
        k2 = rng.choice([x[0] for x in SMALL])
        m = W[k2][1]
        pool = model.hot_pool(m, rng, 2)
    for _ in range(20):
        q2 = model.gen_query(m, rng, pool, [b], 0)
        if a != b or W[k][1].answer(q1) != m.answer(q2):
            break
    setup = [] if fresh else [[k, rng.choice([q1, q2, model.gen_query(
        W[k][1], rng, pool, ['minute_to_session_label'], 0)])]]
    return {'mode': 'enum', 'fresh': fresh, 'setup': setup,
            'threads': [[[0, k, q1]], [[1, k2, q2]]],
            'after': [[k, q1], [k2, q2]], 'faults': [], 'strategy': None}


def ask_checked(key, q, what):
    cal, m = W[key]
    got = model.ask(cal, q)
    want = m.answer(q)
    if got != want:
        raise runner.Violation(
            'wrong-answer', '%s: %s%s answered %s, the schedule says %s'
            % (what, key, q, got, want))


def one(spec, strategy, out, cals=None):
    cals = cals or {k: W[k][0] for k in W}
    bad = []
    overlap = [0, None]
    inflight = {}
    pairs = set()

    def worker(s, tid, ops):
        def body():
            for oid, key, q in ops:
                s.begin_op(oid)
                cal, m = cals[key], W[key][1]
                inflight[tid] = q[0]
                for o, name in inflight.items():
                    if o != tid:
                        pairs.add(tuple(sorted((name, q[0]))))
                try:
                    got = model.ask(cal, q)
                except sched.INJECTED:
                    continue
                finally:
                    inflight.pop(tid, None)
                want = m.answer(q)
                if got != want:
                    bad.append('thread %d: %s%s answered %s, the schedule '
                               'says %s' % (tid, key, q, got, want))
        return body

    s = sched.Scheduler(strategy, faults=spec['faults'])
    for tid, ops in enumerate(spec['threads']):
        s.spawn(worker(s, tid, ops))
    s.run()
    common.sched_cover(out, s)
    out['sets']['overlapping_query_pairs'] = sorted(
        set(out['sets'].get('overlapping_query_pairs', [])) | pairs)
    out['digest'] = s.digest if 'digest' not in out else \
        (out['digest'] * 31 + s.digest) & 0xffffffff
    out['decisions'] = s.decisions
    out['sums']['queries'] = out['sums'].get('queries', 0) + \
        sum(len(t) for t in spec['threads'])
    common.check_sched(s, {'decisions': s.decisions})
    if bad:
        v = runner.Violation('wrong-answer', bad[0])
        v.extra = {'decisions': s.decisions}
        raise v
    return s


def unasked(spec):
    """Copies that have nothing memoised yet, of the calendars in use."""
    out = {}
    for th in spec['threads']:
        for _, key, _ in th:
            if key not in out:
                try:
                    out[key] = copy.copy(W[key][0])
                except Exception:
                    out[key] = W[key][0]
    return out


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}}
    for key, q in spec['setup']:
        ask_checked(key, q, 'before any concurrency')
    if spec['mode'] == 'enum' and spec['strategy'] is None:
        for first in (0, 1):
            k = 1
            while k < 400:
                s = one(spec, sched.Explicit(
                    [('f', -1, -1, 0, first),
                     ('p', first, first, k, 1 - first)]), out,
                    unasked(spec) if spec.get('fresh') else None)
                if not s.switch_sites or \
                        out['sums']['scheduling_points'] > 100000:
                    break
                out['sums']['enumerated_schedules'] = \
                    out['sums'].get('enumerated_schedules', 0) + 1
                k += 1
                for key, q in spec['setup']:
                    ask_checked(key, q, 'between two schedules')
    else:
        one(spec, sched.make_strategy(spec['strategy'],
                                      len(spec['threads'])), out)
    out['nontrivial'] = out['sums'].get('preemptions', 0) > 0
    keys = set(k for t in spec['threads'] for _, k, _ in t)
    try:
        for key, q in spec['after']:
            ask_checked(key, q, 'after the threads finished')
        for key in keys:
            cal, m = W[key]
            now = model.CalendarModel.of(cal)
            if (now.s, now.o, now.c, now.bs, now.be) != \
                    (m.s, m.o, m.c, m.bs, m.be):
                raise runner.Violation('published-changed',
                                       '%s: schedule changed' % key)
    except runner.Violation as v:
        v.extra = {'decisions': out['decisions']}
        raise
    out['sample'] = {k: spec[k] for k in ('threads', 'strategy', 'faults')}
    return out


def shrink(spec):
    if spec['mode'] == 'enum':
        spec = dict(spec, mode='run')
        yield spec
    for c in common.shrink_threads(spec):
        yield c
