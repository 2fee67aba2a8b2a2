"""C08: at any start instant every exchange can be built."""
import numpy as np
import pandas as pd

from .. import clock, runner
from . import common, nodes

ID = 'C08'
LEVEL = 'exploration'
INSTRUMENT = False
PLAN = {'quick': (1500, 80), 'thorough': (60000, 800)}
CHUNK = 2
KEEP_GC = True
RULE = ('A run starts a process at a seeded instant of 2021-2048 in a seeded '
        'host time zone, with a clock that ticks, stands still or jumps '
        'between two readings, imports the package and builds an exchange '
        'with its default end (runs below the number of exchanges and a '
        'quarter of the rest with all defaults, through the registry; the '
        'first ones at the latest instant). It checks well-formedness, '
        'coverage against a calendar with an explicit later end, and queries '
        'about the current minute. Instants aim at default ends that fall on '
        'special days, midnights, leap days and DST changes. Non-trivial: '
        'the calendar was built and has a default end. Distinct: by '
        '(exchange, start day).')
REAL = ['trading_calendars (whole package, from the working tree, imported '
        'anew by each simulated process)', 'pandas', 'numpy', 'pytz']
STUBS = ['wall clock',
         'programs on the hosts (none installed)',
         'process start (fork, then import)']
ASSUMPTIONS = ['pandas lists holidays up to the year 2200.']
EDGES = ['2024-02-29 00:00', '2024-02-29 12:00', '2024-02-29 23:59:59',
         '2028-02-29 17:30', '2032-02-29 06:00', '2023-02-28 23:59:59',
         '2023-03-01 00:00', '2025-12-31 23:59:59.999999999',
         '2026-01-01 00:00', '2026-03-29 01:30', '2027-10-31 01:30',
         '2024-03-10 07:00', '2038-01-19 03:14:08', '2040-12-30 12:00']
JUMPS = [[0] * k + [s * d] for k in range(4)
         for d in (nodes.NS, 40 * nodes.DAY) for s in (-1, 1)]
NAMES = []
SPECIAL = {}


def _special(name):
    """Days on which a default end is interesting."""
    first, last = nodes.years(name)
    if last is not None:
        return []
    cal = common.factories()[name](start=common.T('2023-01-01'),
                                   end=common.T('2026-12-31'))
    a = nodes.arrays(cal)
    days = np.arange(a['sessions'][0], a['sessions'][-1], nodes.DAY)
    closed = np.setdiff1d(days, a['sessions'])
    return sorted(set(a['late'].tolist()) | set(a['early'].tolist()) |
                  set(closed.tolist()[::7]))


def warm():
    nodes.start(nodes.PARENT)
    clock.off()
    del NAMES[:]
    NAMES.extend(sorted(common.factories()))
    try:
        found = runner.parallel_map(_special, NAMES)
    except RuntimeError:
        # A run will report what cannot be built.
        found = [[] for _ in NAMES]
    SPECIAL.update(zip(NAMES, found))


def recheck(i):
    return i % 97 == 60


def adequate(cover):
    return cover.sums.get('calendars_built', 0) > 60


def generate(rng, i, tier):
    name = NAMES[i % len(NAMES)]
    if i < len(NAMES):
        return {'name': name, 't': nodes.T1, 'tz': 'UTC', 'tick': 0,
                'steps': [], 'full': True}
    if i < len(NAMES) + len(EDGES):
        # A day and a minute of the year that are unlike the others.
        t = pd.Timestamp(EDGES[i - len(NAMES)]).value
        return {'name': name, 't': t, 'tz': rng.choice(nodes.ZONES),
                'tick': 0, 'steps': [], 'full': False}
    j = i - len(NAMES) - len(EDGES)
    if j < len(JUMPS):
        # A jump at the first few readings of the clock.
        return {'name': '24/5', 't': rng.randint(nodes.T0, nodes.T1),
                'tz': 'UTC', 'tick': 0, 'steps': JUMPS[j], 'full': False}
    r = rng.random()
    t = rng.randint(nodes.T0, nodes.T1)
    if r < 0.4 and SPECIAL[name]:
        # End on such a day (or its anniversary) next year.
        d = pd.Timestamp(rng.choice(SPECIAL[name]))
        y = rng.randint(2021, 2047)
        if (d.month, d.day) == (2, 29):
            d += pd.Timedelta(days=1)
        t = pd.Timestamp(y, d.month, d.day).value + rng.choice(
            [-1, 0, 0, 0, 1]) * nodes.DAY + rng.randrange(nodes.DAY)
    elif r < 0.5:
        t = t // nodes.DAY * nodes.DAY + rng.choice([-1, 0, 1, nodes.NS])
    elif r < 0.6:
        y = rng.choice([2023, 2024, 2027, 2028, 2031, 2032, 2044, 2047])
        t = pd.Timestamp('%d-%s' % (y, rng.choice(
            ['02-28', '02-29' if y % 4 == 0 else '03-02', '03-01', '12-31', '01-01', '03-10', '11-05', '03-31',
             '10-27']))).value + rng.randrange(nodes.DAY)
    steps = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append(rng.choice([-1, 1]) * rng.choice(
                [1, nodes.NS, 3600 * nodes.NS, nodes.DAY, 40 * nodes.DAY]))
    return {'name': name, 't': min(max(t, nodes.T0), nodes.T1),
            'tz': rng.choice(nodes.ZONES),
            'tick': rng.choice([0, 0, 1000, nodes.NS]), 'steps': steps,
            'full': rng.random() < 0.25}


def well_formed(cal, where):
    a = nodes.arrays(cal)
    s = a['sessions']
    NAT = np.iinfo('int64').min

    def bad(what, mask):
        i = int(np.nonzero(mask)[0][0])
        raise runner.Violation('ill-formed', '%s: %s: %s' % (
            where, what, nodes.day(s[i])))

    if len(s) == 0:
        raise runner.Violation('ill-formed', where + ': no sessions')
    for what, mask in (
            ('session is not a midnight', s % nodes.DAY != 0),
            ('sessions out of order', np.diff(s, prepend=s[0] - 1) <= 0),
            ('open not before close', a['market_open'] >= a['market_close']),
            ('opens before the previous close',
             np.concatenate([[False],
                             a['market_open'][1:] <= a['market_close'][:-1]])
             if cal.name not in ('24/7', '24/5')
             else np.zeros(len(s), bool)),
            ('half a break', (a['break_start'] == NAT) !=
             (a['break_end'] == NAT)),
            ('break outside the session',
             (a['break_start'] != NAT) &
             ~((a['market_open'] < a['break_start']) &
               (a['break_start'] < a['break_end']) &
               (a['break_end'] < a['market_close'])))):
        if mask.any():
            bad(what, mask)
    for k, what in (('late', 'late open'), ('early', 'early close')):
        extra = np.setdiff1d(a[k], s)
        if len(extra):
            raise runner.Violation('ill-formed', '%s: %s is not a session: %s'
                                   % (where, what, nodes.day(extra[0])))
    if cal.first_session.value != s[0] or cal.last_session.value != s[-1]:
        raise runner.Violation('ill-formed', where + ': first or last session')
    return a


def about_now(cal, ref, now, where):
    """A user's questions about the current minute."""
    m = pd.Timestamp(now // (60 * nodes.NS) * 60 * nodes.NS, tz='UTC')
    n = 0
    for q in ('next_open', 'next_close', 'previous_open', 'previous_close',
              'is_open_on_minute', 'minute_to_session_label', 'next_minute',
              'previous_minute'):
        try:
            x = getattr(cal, q)(m)
        except Exception as e:
            raise runner.Violation('query-failed', '%s: %s(%s) raised %s: %s'
                                   % (where, q, m, type(e).__name__, e))
        y = getattr(ref, q)(m)
        n += 1
        if x != y:
            raise runner.Violation('query-differs', '%s: %s(%s) is %s, with '
                                   'an explicit end %s' % (where, q, m, x, y))
    return n


def execute(spec):
    out = {'sums': {'calendars_built': 0}, 'sets': {}, 'faults': {}}
    name, t = spec['name'], spec['t']
    first, last = nodes.years(name)
    tc = nodes.start(t, spec['tz'], spec['tick'], spec['steps'])
    fac = common.factories()
    full = spec['full'] or last is not None
    where = '%s at %s (TZ %s)' % (name, pd.Timestamp(t), spec['tz'])
    try:
        if full:
            cal = tc.get_calendar(name)
        else:
            cal = fac[name](start=pd.Timestamp(
                t // nodes.DAY * nodes.DAY - 300 * nodes.DAY, tz='UTC'))
    except Exception as e:
        raise runner.Violation('build-failed', '%s: %s: %s' % (
            where, type(e).__name__, str(e)[:300]))
    # The earliest instant the process has seen as its start.
    seen, low = t, t
    for s in spec['steps'][:max(clock.reads() - 1, 0)]:
        seen += s
        low = min(low, seen)
    a = well_formed(cal, where)
    out['sums']['calendars_built'] = 1
    out['sums']['sessions_checked'] = len(a['sessions'])
    if full:
        f = cal.first_session
        if not (pd.Timestamp('%d-01-01' % first, tz='UTC') <= f <=
                pd.Timestamp('%d-01-10' % first, tz='UTC')):
            raise runner.Violation('coverage', '%s begins on %s' % (where, f))
    if last is not None:
        f = cal.last_session
        if not (pd.Timestamp('%d-12-25' % last, tz='UTC') <= f <=
                pd.Timestamp('%d-12-31' % last, tz='UTC')):
            raise runner.Violation('coverage', '%s ends on %s' % (where, f))
    else:
        lo = t // nodes.DAY * nodes.DAY - 20 * nodes.DAY
        hi = (low + 364 * nodes.DAY) // nodes.DAY * nodes.DAY
        try:
            ref = fac[name](
                start=pd.Timestamp(lo, tz='UTC'),
                end=min(pd.Timestamp(hi + 30 * nodes.DAY, tz='UTC'),
                        pd.Timestamp('2049-12-31', tz='UTC')))
        except Exception as e:
            raise runner.Violation('build-failed', '%s: explicit end: %s: %s'
                                   % (where, type(e).__name__, str(e)[:300]))
        # Not the first day, which a known finding of C07 is about.
        d = nodes.difference(nodes.cut(a, lo + nodes.DAY, hi),
                             nodes.cut(nodes.arrays(ref), lo + nodes.DAY, hi))
        if d:
            raise runner.Violation('coverage', '%s, against an explicit end: '
                                   '%s' % (where, d))
        out['sums']['queries_about_now'] = about_now(cal, ref, t, where)
        out['sums']['simulated_days_ahead'] = 364
    out['nontrivial'] = last is None
    out['digest'] = '%s %d' % (name, t // nodes.DAY)
    import zlib
    out['digest'] = zlib.crc32(out['digest'].encode())
    out['faults']['start instant moved'] = 1
    if spec['steps']:
        out['faults']['clock jump'] = len(spec['steps'])
    if spec['tz'] != 'UTC':
        out['faults']['host time zone changed'] = 1
    out['sums']['clock_reads'] = clock.reads()
    out['sets']['exchanges'] = [name]
    out['sets']['start_years'] = [str(pd.Timestamp(t).year)]
    out['sample'] = spec
    return out


def shrink(spec):
    for c in runner.ddmin_candidates(spec['steps']):
        yield dict(spec, steps=c)
    for k, v in (('tz', 'UTC'), ('tick', 0), ('full', False)):
        if spec[k] != v:
            yield dict(spec, **{k: v})
    t = spec['t'] // nodes.DAY * nodes.DAY
    if t != spec['t']:
        yield dict(spec, t=t)
