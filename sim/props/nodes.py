"""Simulated processes: a forked child that starts at a chosen instant."""
import base64
import errno
import os
import subprocess
import time

import numpy as np
import pandas as pd

from .. import clock, instrument, model, runner
from . import common

NS = 10 ** 9
DAY = 86400 * NS
T0 = pd.Timestamp('2021-01-01', tz='UTC').value
T1 = pd.Timestamp('2048-12-29', tz='UTC').value
ZONES = ['UTC', 'America/New_York', 'Asia/Tokyo', 'Pacific/Kiritimati',
         'Pacific/Pago_Pago', 'Europe/London', 'Asia/Kathmandu',
         'Australia/Lord_Howe']
# Years the documentation promises, where they differ from 1990 to a year from
# now: (first, last); last None means open-ended.
YEARS = {'XBOM': (1997, 2020), 'XSES': (1986, 2020), 'XKRX': (1986, 2021),
         'XSHG': (1999, 2025), 'XTKS': (2000, None),
         'us_futures': (2000, None)}


def years(name):
    return YEARS.get(name, (1990, None))


def absent(args, *rest, **kw):
    """On the simulated hosts no program is installed (C12 is about those)."""
    raise OSError(errno.ENOENT, 'No such file or directory', str(args))


def start(t, tz='UTC', tick=0, steps=()):
    """Become a process started at t: set the clock, import the package."""
    instrument.purge()
    common.forget()
    os.environ['TZ'] = tz
    time.tzset()
    clock.set(t, tick, steps)
    popen = subprocess.Popen
    subprocess.Popen = absent
    try:
        import trading_calendars
    except Exception as e:
        raise runner.Violation('start-failed', 'import at %s (TZ %s): %s: %s'
                               % (pd.Timestamp(t), tz, type(e).__name__, e))
    finally:
        subprocess.Popen = popen
    return trading_calendars


def resume(t, tz='UTC', tick=0, steps=()):
    """Go on from the parent's import of the package, at another instant."""
    os.environ['TZ'] = tz
    time.tzset()
    clock.set(t, tick, steps)


COLUMNS = ('market_open', 'market_close', 'break_start', 'break_end')


def ints(index):
    return np.asarray(pd.DatetimeIndex(index).asi8, dtype='int64')


def arrays(cal):
    """What a calendar says about each of its sessions."""
    s = model.table(cal)
    d = {'sessions': ints(cal.all_sessions),
         'late': np.sort(ints(cal.late_opens)),
         'early': np.sort(ints(cal.early_closes))}
    for c in COLUMNS:
        d[c] = np.asarray(s[c].values.astype('datetime64[ns]').astype('int64'))
    return d


def pack(d):
    return {k: base64.b64encode(v.tobytes()).decode() for k, v in d.items()}


def unpack(d):
    return {k: np.frombuffer(base64.b64decode(v), dtype='int64')
            for k, v in d.items()}


def with_regime(cal):
    """arrays(), and the sessions from which other local hours hold."""
    d = arrays(cal)
    found = [d['sessions'][:0]]
    for k in ('open_times', 'close_times', 'break_start_times',
              'break_end_times'):
        for day, _ in getattr(cal, k, None) or ():
            if day is not None:
                found.append(np.array([pd.Timestamp(day).value]))
    for c in COLUMNS:
        v = pd.DatetimeIndex(d[c], tz='UTC').tz_convert(cal.tz)
        t = np.where(v.isna(), -1, v.hour * 60 + v.minute)
        at = np.nonzero(t[1:] != t[:-1])[0] + 1
        # Those that last.
        found.append(d['sessions'][[
            i for i in at if i > 20 and (t[i - 20:i] == t[i - 1]).all()
            and i + 20 < len(t) and (t[i:i + 20] == t[i]).all()]])
    d['regime'] = np.unique(np.concatenate(found))
    return d


def _ref(name):
    first, last = years(name)
    start(T0, 'UTC')
    cls = common.factories()[name]
    if last is not None:
        return pack(with_regime(cls()))
    for end in ('2049-12-31', '2040-12-31', '2030-12-31', '2024-12-31'):
        try:
            return pack(with_regime(cls(end=pd.Timestamp(end, tz='UTC'))))
        except ValueError:
            # Whether every year can be built is decided by C08.
            continue
    return pack(with_regime(cls(end=pd.Timestamp('2022-12-31', tz='UTC'))))


REF = {}
# When the process that all runs are forked from started.
PARENT = pd.Timestamp('2023-07-04 15:30', tz='UTC').value


def compute_refs():
    start(PARENT)
    clock.off()
    names = sorted(common.factories())
    for n, r in zip(names, runner.parallel_map(_ref, names)):
        REF[n] = unpack(r)


def cut(d, a, b):
    """The part of arrays() on days a..b."""
    s = d['sessions']
    m = (s >= a) & (s <= b)
    out = {k: d[k][m] for k in ('sessions',) + COLUMNS}
    for k in ('late', 'early'):
        out[k] = d[k][(d[k] >= a) & (d[k] <= b)]
    return out


def day(ns):
    return str(pd.Timestamp(int(ns)))[:10]


def difference(got, want):
    """None, or the first thing in which two arrays() differ."""
    if not np.array_equal(got['sessions'], want['sessions']):
        g, w = set(got['sessions'].tolist()), set(want['sessions'].tolist())
        if g == w:
            return 'sessions in a different order'
        return 'only here a session: %s; only there: %s' % (
            [day(x) for x in sorted(g - w)[:3]],
            [day(x) for x in sorted(w - g)[:3]])
    for c in COLUMNS:
        if not np.array_equal(got[c], want[c]):
            i = int(np.nonzero(got[c] != want[c])[0][0])
            return '%s of %s is %s here, %s there' % (
                c, day(got['sessions'][i]), pd.Timestamp(int(got[c][i])),
                pd.Timestamp(int(want[c][i])))
    for c, what in (('late', 'late opens'), ('early', 'early closes')):
        if not np.array_equal(got[c], want[c]):
            g, w = set(got[c].tolist()), set(want[c].tolist())
            return '%s only here: %s; only there: %s' % (
                what, [day(x) for x in sorted(g - w)[:3]],
                [day(x) for x in sorted(w - g)[:3]])
    return None


def narrow(a, b):
    """List holidays only from two years before a to two years after b."""
    from pandas.tseries.holiday import AbstractHolidayCalendar as A
    A.start_date = pd.Timestamp('%d-01-01' % (pd.Timestamp(a).year - 2))
    A.end_date = pd.Timestamp('%d-12-31' % (pd.Timestamp(b).year + 2))
