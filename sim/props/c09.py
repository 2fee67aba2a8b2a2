"""C09: tcal prints the right month and never claims success falsely."""
import calendar as gregorian
import errno
import io
import os
import re
import sys
import time
import traceback
import zlib

import pandas as pd

from .. import clock, rt, runner
from . import common, nodes

ID = 'C09'
LEVEL = 'fault_enumeration'
PLAN = {'quick': (20000, 50), 'thorough': (600000, 700)}
CHUNK = 10
RULE = ('A run is one tcal process: seeded arguments (exchanges, aliases, '
        'unknown names, months and years good and bad), start instant (aimed '
        'at month and year ends), host time zone and clock jumps between any '
        'two readings. Its standard output and error are simulated devices '
        'that take part of a write, fill up, break or fail once at any byte, '
        'with line or block buffering; in some runs an error is raised at a '
        'seeded scheduling point of the package. Runs below %d fail the '
        'output at every byte of a month in turn. One run in twelve '
        'imports the package and builds the calendar anew. The delivered '
        'output is parsed and compared with the sessions of the calendar. '
        'Non-trivial: a fault fired, the clock jumped, or the arguments were '
        'bad. Distinct: by arguments, status and delivered bytes.')
REAL = ['trading_calendars.tcal and the package it uses (working tree)',
        'pandas', 'io.TextIOWrapper and io.BufferedWriter over the devices']
STUBS = ['wall clock',
         'programs on the hosts (none installed)',
         'output devices', 'process start (fork) and exit '
         '(status and final flush as the interpreter does them)',
         'years for which holidays are listed (1988-2052)']
ASSUMPTIONS = ['The command writes through sys.stdout and sys.stderr.',
               'The interpreter ends with a non-zero status when an exception '
               'leaves main or the final flush of the output fails.']
FIRST = 400
RULE = RULE % FIRST
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'AAA-14', 'BBB12', 'CCC-5:45',
         'CET-1CEST,M3.5.0,M10.5.0/3', 'DDD-12DDT,M9.5.0,M4.1.0/3']
READY = ['24/7', '24/5', 'XNYS', 'XTKS', 'XHKG', 'XSHG', 'CMES', 'XIST',
         'XTAE', 'XWBO', 'us_futures', 'XSAU']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
ALIASES = {'NYSE': 'XNYS', 'HKEX': 'XHKG', 'JPX': 'XTKS', 'SSE': 'XSHG',
           'CME': 'CMES', 'Globex': 'CMES', 'us_equities': 'XNYS'}
NAMES = []


def warm():
    nodes.start(nodes.PARENT)
    clock.off()
    nodes.narrow(pd.Timestamp('1990-01-01').value,
                 pd.Timestamp('2050-01-01').value)
    import trading_calendars as tc
    from trading_calendars import tcal  # noqa
    NAMES[:] = sorted(common.factories())
    for n in list(READY):
        try:
            tc.get_calendar(n)
        except Exception:
            # Not this property's business.
            READY.remove(n)
    # What it takes to render once, so that the first runs are not slower.
    for n in READY[:3]:
        try:
            tc.get_calendar(n).is_session(pd.Timestamp('2020-01-02'))
        except Exception:
            pass


def recheck(i):
    return i % 97 == 13


def adequate(cover):
    return cover.sums.get('months_compared', 0) > 300


def gen_args(rng, name):
    r = rng.random()
    y = str(rng.choice([rng.randint(1990, 2026), rng.randint(1901, 2199),
                        2020, 2021, 2023]))
    m = str(rng.randint(1, 12))
    if r < 0.35:
        return [name]
    if r < 0.45:
        return [name, y]
    if r < 0.75:
        return [name, m, y]
    odd = [str(rng.randint(-2, 120)), '0', '-1', '99', '68', '100', '1600',
           '1677', '2262', '9999', '10000', '99999', '', ' ', 'x', '2020.0',
           '1e3', '0x10', '2020-01', ' 2020', '+2020', '02020', 'None',
           '٢٠٢٠', '2_020', '9' * 40]
    bad = ['0', '13', '-1', '12.0', '', 'Jan', '1' * 30, '00', '08', ' 3',
           '99']
    k = rng.randrange(6)
    if k == 0:
        return [rng.choice(['XXXX', '', ' ', name.lower() + '?', name + ' ',
                            name + '\n', 'None', '24', '../x', 'é',
                            '%s', '{}'])] + rng.choice(
            [[], [y], [m, y], ['x'], [m, y, y]])
    if k == 1:
        return [name, rng.choice(odd)]
    if k == 2:
        return [name, m, rng.choice(odd)]
    if k == 3:
        return [name, rng.choice(bad), y]
    if k == 4:
        return [name] + [rng.choice([m, y, 'x', '']) for _ in range(
            rng.randint(3, 6))]
    return rng.choice([[], [], [name, rng.choice(bad), rng.choice(odd)]])


def device(rng):
    """{} or how an output device misbehaves."""
    d = {}
    if rng.random() < 0.5:
        d['take'] = rng.choice([1, 3, 7, 29, 64, 100])
    if rng.random() < 0.55:
        d['fail'] = [rng.choice([0, 0, 1, rng.randint(0, 330),
                                 rng.randint(0, 2600), 27, 28, 29]),
                     rng.choice(['ENOSPC', 'EPIPE', 'EIO', 'EDQUOT',
                                 'EBADF']),
                     rng.random() < 0.3]
    return d


def generate(rng, i, tier):
    if i < FIRST:
        return {'args': ['24/7', '3', '2020'], 'none': False, 'tz': 'UTC0',
                't': nodes.PARENT, 'tick': 0, 'steps': [], 'fresh': False,
                'out': {'fail': [i, 'ENOSPC', False]}, 'err': {},
                'line': i % 2 == 0, 'error': None}
    fresh = rng.random() < 0.08
    name = rng.choice(NAMES if fresh else READY)
    if not fresh and rng.random() < 0.15:
        name = rng.choice(sorted(a for a in ALIASES if ALIASES[a] in READY)
                          or [name])
    args = gen_args(rng, name)
    tz = rng.choice(ZONES)
    # Instants: the ends of months and years as seen in the time zone.
    y, m = rng.randint(2021, 2048), rng.choice([1, 1, 1, 3, rng.randint(1, 12)])
    t = pd.Timestamp(y, m, 1).value
    r = rng.random()
    if r < 0.6:
        t += rng.choice([-1, 0, 1, -nodes.NS, nodes.NS, -1000, 500000000,
                         -500000000])
        t -= rng.choice([0, 0, 14, -12, 5.75, -5, -4, 1, 2, 12, 13]) * \
            3600 * nodes.NS
    elif r < 0.7:
        t = pd.Timestamp(rng.choice(
            ['2024-02-29', '2024-03-31', '2028-02-29', '2025-01-31',
             '2038-01-19', '2025-10-31', '2025-12-31'])).value + \
            rng.randrange(nodes.DAY)
    else:
        t += rng.randrange(31 * nodes.DAY)
    t = min(max(int(t), nodes.T0), nodes.T1)
    steps = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            steps.append(rng.choice([0, 0, 1000]))
        steps.append(rng.choice([-1, 1, 1, 1]) * rng.choice(
            [1, nodes.NS, nodes.NS, 3600 * nodes.NS, nodes.DAY,
             40 * nodes.DAY, 366 * nodes.DAY]))
    spec = {'args': args, 'none': rng.random() < 0.5, 'tz': tz, 't': t,
            'tick': rng.choice([0, 0, 1000, nodes.NS // 2, nodes.NS]),
            'steps': steps, 'fresh': fresh, 'out': {}, 'err': {},
            'line': rng.random() < 0.5, 'error': None}
    r = rng.random()
    if r < 0.5:
        spec['out'] = device(rng)
    if rng.random() < 0.1:
        spec['err'] = device(rng)
    if r > 0.9 and not fresh:
        spec['error'] = [rng.choice([rng.randint(1, 60), rng.randint(1, 700),
                                     rng.randint(1, 4000)]),
                         rng.choice(['MemoryError', 'OSError', 'ValueError',
                                     'KeyboardInterrupt', 'RuntimeError',
                                     'KeyError'])]
    return spec


class Device(io.RawIOBase):
    def __init__(self, how):
        io.RawIOBase.__init__(self)
        self.got = bytearray()
        self.take = how.get('take')
        self.fail = how.get('fail')
        self.fired = 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.take:
            b = b[:self.take]
        if self.fail and b:
            at, name, once = self.fail
            room = at - len(self.got)
            if room <= 0:
                self.fired += 1
                if once:
                    self.fail = None
                n = getattr(errno, name)
                raise OSError(n, os.strerror(n))
            b = b[:room]
        self.got += b
        return len(b)


class Exited(BaseException):
    """The process called os._exit: it ends without flushing anything."""


def leave(status):
    raise Exited(status)


def call(spec, argv):
    """What the installed script does; the exit status."""
    from trading_calendars import tcal
    status = 0
    try:
        if spec['none']:
            sys.argv = argv
            sys.exit(tcal.main())
        sys.exit(tcal.main(argv))
    except SystemExit as e:
        rt.set_hook(None)
        c = e.code
        if c is None:
            status = 0
        elif isinstance(c, int):
            status = c & 0xff
        else:
            status = 1
            try:
                sys.stderr.write('%s\n' % (c,))
            except Exception:
                pass
    except (runner.Violation, Exited):
        raise
    except BaseException:
        rt.set_hook(None)
        status = 1
        try:
            traceback.print_exc(file=sys.stderr)
        except Exception:
            pass
    return status


def execute(spec):
    if spec['fresh']:
        nodes.start(spec['t'], spec['tz'], spec['tick'], spec['steps'])
        from trading_calendars import tcal  # noqa
    else:
        nodes.resume(spec['t'], spec['tz'], spec['tick'], spec['steps'])
    out, err = Device(spec['out']), Device(spec['err'])
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    argv = ['tcal'] + spec['args']
    fired = []
    if spec['error']:
        n = [spec['error'][0]]
        exc = getattr(__import__('builtins'), spec['error'][1])

        def hook(site):
            n[0] -= 1
            if n[0] == 0:
                fired.append(site)
                raise exc('simulated')
        rt.set_hook(hook)
    sys.stdin = io.StringIO('')
    sys.stdout = so = io.TextIOWrapper(io.BufferedWriter(out), 'utf-8',
                                       line_buffering=spec['line'])
    sys.stderr = se = io.TextIOWrapper(io.BufferedWriter(err), 'utf-8',
                                       'backslashreplace',
                                       line_buffering=True)
    exiting, os._exit = os._exit, leave
    try:
        ended = False
        try:
            status = call(spec, list(argv))
        except Exited as e:
            status = e.args[0] & 0xff
            ended = True
        rt.set_hook(None)
        late = False
        if not ended and sys.stdout is not None and not sys.stdout.closed:
            try:
                sys.stdout.flush()
            except Exception:
                late = True
        if late:
            status = 120
            try:
                sys.stderr.write('Exception ignored\n')
            except Exception:
                pass
        try:
            if not ended:
                se.flush()
        except Exception:
            pass
    finally:
        os._exit = exiting
        rt.set_hook(None)
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
    reads = clock.reads()
    clock.off()
    instants = [spec['t']]
    for k in range(reads):
        s = spec['steps']
        instants.append(instants[-1] + (s[k] if k < len(s) else
                                        spec['tick']))
    for f in () if ended else (so, se):
        try:
            f.detach().detach()
        except Exception:
            pass
    data, text = bytes(out.got), bytes(err.got)
    faulty = bool(out.fired or err.fired or fired)
    months = judge(spec, status, data, text, instants, faulty)
    res = {'sums': {'months_compared': months, 'clock_readings': reads,
                    'status_zero': int(status == 0),
                    'status_non_zero': int(status != 0)},
           'sets': {'statuses': [status]}, 'faults': {}}
    if out.fired:
        res['faults']['output_failed'] = 1
    if err.fired:
        res['faults']['error_output_failed'] = 1
    if spec['out'].get('take') or spec['err'].get('take'):
        res['faults']['short_writes'] = 1
    if fired:
        res['faults']['error_raised_inside'] = 1
    if any(abs(s) >= nodes.NS for s in spec['steps'][:reads]):
        res['faults']['clock_jumped'] = 1
    res['nontrivial'] = bool(res['faults'] or status)
    what = repr((spec['args'], status, data, bool(text)))
    res['digest'] = '%08x' % zlib.crc32(what.encode())
    if spec['steps'] and months:
        res['sample'] = {'args': spec['args'], 'tz': spec['tz'],
                         'instant': str(pd.Timestamp(spec['t'])),
                         'status': status,
                         'first line': data.decode().split('\n')[0].strip()}
    return res


def plain(s):
    return re.match(r'^[0-9]+$', s, re.ASCII)


def judge(spec, status, data, text, instants, faulty):
    """Raise Violation, or return how many months were compared."""
    import trading_calendars as tc
    args = spec['args']
    where = 'tcal %s at %s TZ=%s, status %d' % (
        args, pd.Timestamp(spec['t']), spec['tz'], status)
    if spec['out'] or spec['err']:
        where += ' (output %s, errors %s)' % (spec['out'], spec['err'])
    asked = None            # (year, month or None)
    bad = None
    sessions = None
    if not args:
        bad = 'no arguments'
    elif '-h' not in args and '--help' not in args:
        try:
            cal = tc.get_calendar(args[0])
            sessions = set(nodes.ints(cal.all_sessions).tolist())
        except tc.errors.InvalidCalendarName:
            bad = 'unknown calendar'
    if not bad and len(args) > 3:
        bad = 'too many arguments'
    if not bad:
        try:
            if len(args) == 2:
                asked = (int(args[1]), None)
            elif len(args) == 3:
                asked = (int(args[2]), int(args[1]))
                if not 1 <= asked[1] <= 12:
                    bad = 'month %d' % asked[1]
        except ValueError:
            bad = 'not a number'
        if asked and not 1 <= asked[0] <= 9999:
            bad = 'year %d' % asked[0]
    if bad:
        if status == 0:
            raise runner.Violation('false-success', '%s: %s' % (where, bad))
        if not text.strip() and not spec['err'] and not spec['error']:
            raise runner.Violation('no-message', '%s: %s' % (where, bad))
        return 0
    if status != 0:
        fine = asked is None or (
            1900 <= asked[0] <= 2200 and all(plain(a) for a in args[1:]))
        if fine and not faulty:
            raise runner.Violation('failed', '%s: standard error %r' % (
                where, text.decode('utf-8', 'replace')[-300:]))
        if not text.strip() and not spec['err'] and not spec['error']:
            raise runner.Violation('no-message', where)
        return 0
    try:
        lines = data.decode('utf-8').split('\n')
    except UnicodeDecodeError as e:
        raise runner.Violation('bad-output', '%s: %s' % (where, e))
    if asked is None:
        # The interpreter may round a reading to the next microsecond.
        now = {time.localtime(x // nodes.NS)[:2] for t in instants
               for x in (t, t + 1000)}
        title = next((x.strip() for x in lines if x.strip()), '')
        for y, m in now:
            if title == '%s %d' % (MONTHS[m - 1], y):
                asked = (y, m)
                break
        else:
            raise runner.Violation('wrong-month', '%s: printed %r, but %s' % (
                where, title, 'it was ' + ', '.join(
                    '%s %d' % (MONTHS[m - 1], y) for y, m in sorted(now))))
    year, month = asked
    if month is not None:
        problem = check_month(lines, '%s %d' % (MONTHS[month - 1], year),
                              year, month, sessions)
        if problem:
            raise runner.Violation('bad-output', '%s: %s' % (where, problem))
        return 1
    problem = check_year(lines, year, sessions)
    if problem:
        raise runner.Violation('bad-output', '%s: %s' % (where, problem))
    return 12


def check_month(lines, title, year, month, sessions):
    """None, or what is wrong with a printed month."""
    lines = [x for x in lines if x.strip()]
    if not lines or lines[0].strip() != title:
        return 'title %r instead of %r' % (lines[:1], title)
    if len(lines) < 2 or lines[1].split() != ['Su', 'Mo', 'Tu', 'We', 'Th',
                                              'Fr', 'Sa']:
        return '%s: no line of weekdays' % title
    first, n = gregorian.monthrange(year, month)
    day = 0
    for row in lines[2:]:
        if len(row) > 28:
            return '%s: row too long: %r' % (title, row)
        row = row.ljust(28)
        for c in range(7):
            cell = row[4 * c:4 * c + 4]
            if not cell.strip():
                continue
            day += 1
            m = re.match(r'^([\[ ])([ 0-9][0-9])([\] ])$', cell)
            if not m or int(m.group(2)) != day or day > n:
                return '%s: %r where day %d is due' % (title, cell, day)
            if c != (first + day) % 7:
                return '%s: day %d in the wrong column' % (title, day)
            marks = m.group(1) + m.group(3)
            ns = (gregorian.timegm((year, month, day, 0, 0, 0)) *
                  nodes.NS)
            want = '  ' if ns in sessions else '[]'
            if marks != want:
                return '%s: day %d is shown as %r, %s' % (
                    title, day, cell, 'it is a session' if want == '  '
                    else 'it is not a session')
    if day != n:
        return '%s: %d of %d days' % (title, day, n)
    return None


def check_year(lines, year, sessions):
    lines = list(lines)
    while lines and not lines[0].strip():
        del lines[0]
    if not lines or lines[0].strip() != str(year):
        return 'title %r instead of %d' % (lines[:1], year)
    starts = [i for i, x in enumerate(lines) if x[:28].strip() in MONTHS]
    if [lines[i][:28].strip() for i in starts] != MONTHS[::3]:
        return 'rows begin with %s' % [lines[i].split() for i in starts]
    for k, i in enumerate(starts):
        j = starts[k + 1] if k + 1 < len(starts) else len(lines)
        for c in range(3):
            part = [x[31 * c:31 * c + 28] for x in lines[i:j]]
            m = 3 * k + c + 1
            problem = check_month(part, MONTHS[m - 1], year, m, sessions)
            if problem:
                return problem
        for x in lines[i:j]:
            if x[28:31].strip() or x[59:62].strip() or x[90:].strip():
                return 'text between months: %r' % x
    return None


def shrink(spec):
    for k, v in (('error', None), ('err', {}), ('out', {}), ('fresh', False),
                 ('tick', 0), ('tz', 'UTC0'), ('none', False),
                 ('line', False)):
        if spec[k] != v:
            yield dict(spec, **{k: v})
    for s in runner.ddmin_candidates(spec['steps']):
        yield dict(spec, steps=s)
    for k in ('out', 'err'):
        if 'take' in spec[k]:
            d = dict(spec[k])
            del d['take']
            yield dict(spec, **{k: d})
    if spec['args'] and spec['args'][0] != '24/7':
        yield dict(spec, args=['24/7'] + spec['args'][1:])
    if spec['t'] % nodes.NS:
        yield dict(spec, t=spec['t'] // nodes.NS * nodes.NS)
