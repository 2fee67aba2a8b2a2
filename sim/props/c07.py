"""C07: windows and start instants agree on every shared session."""
import numpy as np
import pandas as pd

from .. import clock, runner
from . import common, nodes

ID = 'C07'
LEVEL = 'exploration'
INSTRUMENT = False
PLAN = {'quick': (4000, 75), 'thorough': (100000, 800)}
CHUNK = 4
KEEP_GC = True
RULE = ('A run starts a process at a seeded instant, host time zone and clock '
        'behaviour (two runs in three share one start), builds 3-8 windows of an exchange (and of others between '
        'them), and compares each with one calendar over all years built by a '
        'process started at another instant. Windows begin and end on or next '
        'to holidays, late opens, early closes, year ends and the default '
        'end. Run i uses exchange i modulo their number. Non-trivial: at '
        'least one window begins or ends at most a day from such a day. '
        'Distinct: by the windows compared.')
REAL = ['trading_calendars (whole package, from the working tree, imported '
        'anew by each simulated process)', 'pandas', 'numpy', 'pytz']
STUBS = ['wall clock',
         'programs on the hosts (none installed)',
         'process start (fork, then import)',
         'default year range in which pandas lists holidays (the windows of '
         'the run and two years around instead of 1970-2200)']
ASSUMPTIONS = ['Windows are given as whole days and contain a session.']
HOT = {}
NAT = np.iinfo('int64').min
# Non-empty if the finding is listed.
EDGE = common.known(ID, 'special-day-at-window-edge')


def warm():
    nodes.compute_refs()
    for n, r in nodes.REF.items():
        s = r['sessions']
        weekdays = np.arange(s[0], s[-1] + 1, nodes.DAY)
        closed = np.setdiff1d(weekdays, s)
        # Closed days next to which a weekly pattern breaks.
        wd = (closed // nodes.DAY + 3) % 7
        usual = set((((s // nodes.DAY + 3) % 7)[-300:]).tolist())
        hol = closed[[int(x) in usual for x in wd]]
        HOT[n] = {'holiday': hol, 'late': r['late'], 'early': r['early'],
                  'change': changes(r), 'regime': r['regime']}


def changes(r):
    """Sessions whose time of day differs from the session before."""
    o = r['market_open'] % nodes.DAY
    c = r['market_close'] % nodes.DAY
    b = r['break_start'] % nodes.DAY
    m = (o[1:] != o[:-1]) | (c[1:] != c[:-1]) | (b[1:] != b[:-1])
    return r['sessions'][1:][m]


def recheck(i):
    return i % 197 == 7


def adequate(cover):
    return cover.sums.get('windows_compared', 0) > 200


def pick_edge(rng, name, lo, hi):
    kinds = [k for k in ('holiday', 'late', 'early', 'change')
             if len(HOT[name][k])]
    r = rng.random()
    if r < 0.75 and kinds:
        k = rng.choice(kinds)
        i, j = np.searchsorted(HOT[name][k], [lo, hi])
        if i == j:
            return lo
        d = int(HOT[name][k][rng.randrange(i, j)])
        d += rng.choice([-1, 0, 0, 0, 1]) * nodes.DAY
    elif r < 0.85:
        y = pd.Timestamp(rng.randint(lo, hi)).year
        d = pd.Timestamp('%d-%s' % (y, rng.choice(
            ['01-01', '12-31', '02-28', '03-01', '12-24', '12-26']))).value
    else:
        d = rng.randint(lo // nodes.DAY, hi // nodes.DAY) * nodes.DAY
    return min(max(d, lo), hi)


def gen_window(rng, name, near=None):
    s = nodes.REF[name]['sessions']
    lo, hi = int(s[0]), int(s[-1])
    if len(HOT[name]['regime']) and rng.random() < 0.2:
        # Other trading hours begin there.
        near = int(rng.choice(HOT[name]['regime'].tolist()))
        if near < hi - 920 * nodes.DAY and near > lo:
            a, b = near, near + rng.choice([0, 1, 5, 30]) * nodes.DAY
            if rng.random() < 0.7:
                a, b = near - rng.choice([1, 5, 30]) * nodes.DAY, near
            if rng.random() < 0.3:
                a, b = a + nodes.DAY, b + nodes.DAY
            i = int(np.searchsorted(s, a))
            if a > lo and s[i] <= b:
                return [a, b]
    if near is not None and lo < near < hi:
        lo = max(lo, near - 900 * nodes.DAY)
        hi = min(hi, near + 900 * nodes.DAY)
    # Open-ended exchanges: stay a little inside the reference window.
    if nodes.years(name)[1] is None:
        hi = min(hi, int(s[-1]) - 20 * nodes.DAY)
    while True:
        e = pick_edge(rng, name, lo, hi)
        r = rng.random()
        if r < 0.3:
            o = pick_edge(rng, name, max(lo, e - 500 * nodes.DAY),
                          min(hi, e + 500 * nodes.DAY))
            if abs(o - e) > 700 * nodes.DAY:
                continue
        else:
            o = e + rng.choice([-1, 1]) * nodes.DAY * rng.choice(
                [0, 1, 2, 3, 4, 5, 7, 10, 30, 90, 365])
        a, b = min(e, o), max(e, o)
        if a < lo or b > hi:
            continue
        i = int(np.searchsorted(s, a))
        if i < len(s) and s[i] <= b:
            return [a, b]


def generate(rng, i, tier):
    names = sorted(nodes.REF)
    name = names[i % len(names)]
    t1 = min(nodes.T1, int(nodes.REF[name]['sessions'][-1]) -
             370 * nodes.DAY)
    t1 = max(t1, nodes.T0 + nodes.DAY)
    t = rng.randint(nodes.T0, t1)
    if i % 8 == 7:
        # The whole history, as the last and the first processes see it.
        name = names[i // 8 % len(names)]
        s = nodes.REF[name]['sessions']
        b = int(s[-1])
        if nodes.years(name)[1] is None:
            b -= 20 * nodes.DAY
            t1 = nodes.T1
        return {'t': rng.choice([t1, t1, nodes.T0, t]), 'fresh': True,
                'tz': rng.choice(nodes.ZONES), 'tick': 1000,
                'builds': [[name, int(s[0]), b]]}
    name = names[(i - i // 8) % len(names)]
    if rng.random() < 0.5 and nodes.years(name)[1] is None:
        # The default end falls on a special day.
        kind = rng.choice([k for k in ('holiday', 'late', 'early')
                           if len(HOT[name][k])] or ['change'])
        pool = HOT[name][kind]
        pool = pool[(pool > nodes.T0 + 370 * nodes.DAY) &
                    (pool < t1 + 360 * nodes.DAY)] if len(pool) else []
        if len(pool):
            t = int(pool[rng.randrange(len(pool))]) - 365 * nodes.DAY + \
                rng.randrange(nodes.DAY)
    fresh = rng.random() < 0.35
    if not fresh:
        t = nodes.PARENT
    builds = []
    # Windows near each other in time keep the listing of holidays short.
    near = None
    default_end = nodes.years(name)[1] is None and rng.random() < 0.5
    if rng.random() < 0.9:
        s = nodes.REF[name]['sessions']
        near = t // nodes.DAY * nodes.DAY if default_end else \
            int(s[rng.randrange(len(s))])
    for _ in range(rng.randint(3, 8)):
        if rng.random() < 0.15:
            other = rng.choice(names)
            builds.append([other] + gen_window(rng, other, near))
        elif default_end and rng.random() < 0.4:
            builds.append([name, (t // nodes.DAY - rng.choice([5, 40, 200]))
                           * nodes.DAY, None])
        else:
            builds.append([name] + gen_window(rng, name, near))
    return {'t': t, 'fresh': fresh, 'tz': rng.choice(nodes.ZONES),
            'tick': rng.choice([0, 1000, nodes.NS]), 'builds': builds}


def regular(name, tz, d, columns, got):
    """The instants that the nearest days without special hours suggest."""
    r = nodes.REF[name]
    special = np.union1d(r['late'], r['early'])
    i = int(np.searchsorted(r['sessions'], d))
    found = []
    for step in (-1, 1):
        j = i + step
        while 0 <= j < len(r['sessions']) and r['sessions'][j] in special:
            j += step
        if not 0 <= j < len(r['sessions']):
            continue
        new = {}
        for c in columns:
            x = int(r[c][j])
            if x != NAT:
                local = pd.Timestamp(x, tz='UTC').tz_convert(tz)
                x = (local.tz_localize(None) + pd.Timedelta(
                    d - int(r['sessions'][j]))).tz_localize(tz).value
            new[c] = x
        found.append(new)
        if all(new[c] == got[c] for c in columns):
            return new
    return found[0] if found else {}


def as_known(name, tz, got, want, a, b):
    """What the window shows according to the known finding: a special open
    or close at an instant outside the window has no effect."""
    want = {k: v.copy() for k, v in want.items()}
    changed = False
    for kind, col, columns in (
            ('late', 'market_open', ['market_open']),
            ('early', 'market_close', ['market_close', 'break_start',
                                       'break_end'])):
        for d in want[kind].tolist():
            i = int(np.searchsorted(want['sessions'], d))
            x = int(want[col][i])
            last = d == int(want['sessions'][-1]) if b is None else x > b
            if not (x < a or last) or d in got[kind] or \
                    len(got['sessions']) != len(want['sessions']):
                continue
            for c, v in regular(name, tz, d, columns,
                                {c: int(got[c][i]) for c in columns}).items():
                want[c][i] = v
            want[kind] = want[kind][want[kind] != d]
            changed = True
    return want if changed else None


def execute(spec):
    out = {'sums': {'windows_compared': 0, 'session_days_compared': 0},
           'sets': {}, 'faults': {}}
    lo = min(b[1] for b in spec['builds'])
    hi = max(b[2] if b[2] is not None else spec['t'] + 366 * nodes.DAY
             for b in spec['builds'])
    nodes.narrow(lo, hi)
    if spec['fresh']:
        nodes.start(spec['t'], spec['tz'], spec['tick'])
    else:
        nodes.resume(spec['t'], spec['tz'], spec['tick'])
    fac = common.factories()
    near = False
    for n, (name, a, b) in enumerate(spec['builds']):
        where = 'a process started at %s built %s over %s..%s (build %d)' % (
            pd.Timestamp(spec['t']), name, nodes.day(a),
            'the default end' if b is None else nodes.day(b), n)
        try:
            if b is None:
                cal = fac[name](start=pd.Timestamp(a, tz='UTC'))
            else:
                cal = fac[name](start=pd.Timestamp(a, tz='UTC'),
                                end=pd.Timestamp(b, tz='UTC'))
        except Exception as e:
            raise runner.Violation('build-failed', '%s: %s: %s' % (
                where, type(e).__name__, str(e)[:300]))
        got = nodes.arrays(cal)
        end = b
        if b is None:
            # The default end covers whole days up to a year from the start.
            end = (spec['t'] + 364 * nodes.DAY) // nodes.DAY * nodes.DAY
            end = max(end, int(got['sessions'][-1]))
        want = nodes.cut(nodes.REF[name], a, end)
        d = nodes.difference(got, want)
        if d and EDGE:
            other = as_known(name, cal.tz, got, want, a, b)
            if other is not None and not nodes.difference(got, other):
                out['known'] = [EDGE]
                d = None
        if d:
            raise runner.Violation('windows-disagree', '%s: %s' % (where, d))
        out['sums']['windows_compared'] += 1
        out['sums']['session_days_compared'] += len(got['sessions'])
        for edge in (a, end):
            for k in ('holiday', 'late', 'early', 'change'):
                h = HOT[name][k]
                if len(h) and int(np.abs(h - edge).min()) <= nodes.DAY:
                    near = True
                    key = 'window_edges_at_%s' % k
                    out['sums'][key] = out['sums'].get(key, 0) + 1
    out['nontrivial'] = near
    import zlib
    out['digest'] = zlib.crc32(str(spec['builds']).encode())
    if spec['fresh']:
        out['faults']['start instant moved'] = 1
    if spec['tz'] != 'UTC':
        out['faults']['host time zone changed'] = 1
    out['sums']['clock_reads'] = clock.reads()
    out['sums']['simulated_days_of_windows'] = sum(
        ((b if b is not None else spec['t'] + 365 * nodes.DAY) - a) //
        nodes.DAY for _, a, b in spec['builds'])
    out['sets']['exchanges'] = [b[0] for b in spec['builds']]
    out['sample'] = spec
    return out


def shrink(spec):
    for c in runner.ddmin_candidates(spec['builds']):
        if c:
            yield dict(spec, builds=c)
    for k, v in (('tz', 'UTC'), ('tick', 0)):
        if spec[k] != v:
            yield dict(spec, **{k: v})
    for i, (n, a, b) in enumerate(spec['builds']):
        if b is None:
            continue
        for a2, b2 in (((a + b) // 2 // nodes.DAY * nodes.DAY, b),
                       (a, (a + b) // 2 // nodes.DAY * nodes.DAY),
                       (a + nodes.DAY, b), (a, b - nodes.DAY)):
            s = nodes.REF[n]['sessions']
            j = int(np.searchsorted(s, a2))
            if (a2, b2) != (a, b) and a2 <= b2 and j < len(s) and s[j] <= b2:
                yield dict(spec, builds=spec['builds'][:i] + [[n, a2, b2]] +
                           spec['builds'][i + 1:])
