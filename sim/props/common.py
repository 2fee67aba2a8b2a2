"""Pieces shared by the property modules."""
import datetime
import os

import pandas as pd

from .. import model, runner, sched

UTC = 'UTC'


def T(s):
    return pd.Timestamp(s, tz='UTC')


def factories():
    """The package's calendar classes by the names they are registered under.

    Looks at the table of defaults when there is one, otherwise matches the
    names the package offers with the classes it defines."""
    import trading_calendars as tc
    import trading_calendars.calendar_utils as cu
    found = getattr(cu, '_default_calendar_factories', None)
    if found:
        return dict(found)
    classes = {}
    todo = [tc.TradingCalendar]
    while todo:
        for c in todo.pop().__subclasses__():
            todo.append(c)
            if c.__module__.startswith(tc.__name__ + '.'):
                n = c.name if isinstance(c.name, str) else c.name.fget(None)
                classes[n] = c
    return {n: classes[n] for n in tc.get_calendar_names(include_aliases=False)
            if n in classes}


_SYN = {}


def forget():
    """Drop classes derived from a package that was purged."""
    _SYN.clear()


def synthetic(breaks=True, name='SYN'):
    """A calendar with breaks, late opens, early closes and ad-hoc days."""
    key = (breaks, name)
    if key in _SYN:
        return _SYN[key]
    import pytz
    from trading_calendars import TradingCalendar
    from trading_calendars.trading_calendar import HolidayCalendar
    from pandas.tseries.holiday import Holiday
    t = datetime.time

    class Synthetic(TradingCalendar):
        tz = pytz.timezone('Asia/Hong_Kong')
        open_times = ((None, t(9, 31)),)
        close_times = ((None, t(16)),)
        if breaks:
            break_start_times = ((None, t(12)),)
            break_end_times = ((None, t(13, 1)),)

        @property
        def name(self):
            return name

        @property
        def regular_holidays(self):
            return HolidayCalendar([Holiday('Mid', month=12, day=15)])

        @property
        def adhoc_holidays(self):
            return [pd.Timestamp('2020-12-08', tz='UTC')]

        @property
        def special_opens(self):
            return [(t(10, 31), HolidayCalendar(
                [Holiday('Late', month=12, day=3)]))]

        @property
        def special_closes(self):
            return [(t(12), HolidayCalendar(
                [Holiday('Early', month=12, day=24)]))]

        @property
        def special_closes_adhoc(self):
            return [(t(11, 30), ['2020-12-10'])]

    Synthetic.__name__ = 'Synthetic%s' % ('Breaks' if breaks else '')
    if name == 'SYN':
        # Where pickle looks for it.
        Synthetic.__qualname__ = Synthetic.__name__
        globals()[Synthetic.__name__] = Synthetic
    _SYN[key] = Synthetic
    return Synthetic


def shrink_threads(spec):
    """Candidates for specs with 'threads' (lists of [opid, op...]),
    'faults' and an explicit 'strategy'."""
    threads = spec['threads']
    for i in range(len(threads)):
        if threads[i] and sum(1 for t in threads if t) > 1:
            yield dict(spec, threads=[
                [] if k == i else t for k, t in enumerate(threads)])
    for i in range(len(threads)):
        for cand in runner.ddmin_candidates(threads[i]):
            yield dict(spec, threads=[
                cand if k == i else t for k, t in enumerate(threads)])
    if spec.get('faults'):
        for cand in runner.ddmin_candidates(spec['faults']):
            yield dict(spec, faults=cand)
    for key in ('setup', 'after'):
        if spec.get(key):
            for cand in runner.ddmin_candidates(spec[key]):
                yield dict(spec, **{key: cand})
    st = spec.get('strategy')
    if st and st[0] == 'x':
        for cand in runner.ddmin_candidates(
                [d for d in st[1] if d[0] == 'p']):
            forced = [d for d in st[1] if d[0] != 'p']
            yield dict(spec, strategy=['x', forced + cand])


def sched_cover(out, s):
    out.setdefault('sums', {})
    out['sums']['scheduling_points'] = \
        out['sums'].get('scheduling_points', 0) + s.steps
    out['sums']['preemptions'] = out['sums'].get('preemptions', 0) + \
        sum(1 for d in s.decisions if d[0] == 'p')
    sets = out.setdefault('sets', {})
    sets['preemption_sites'] = sorted(
        set(sets.get('preemption_sites', [])) | s.switch_sites)
    for f in s.fired:
        out.setdefault('faults', {})
        out['faults'][f[0]] = out['faults'].get(f[0], 0) + 1


def check_sched(s, extra=None):
    if s.problem == 'deadlock':
        v = runner.Violation('deadlock', 'every unfinished thread waits for '
                             'a lock that nobody will release')
    elif s.problem == 'no-progress':
        v = runner.Violation('no-progress',
                             'no end after %d scheduling points' % s.steps)
    else:
        return
    v.extra = extra or {}
    raise v


def known(prop, key):
    """What known_findings.txt says about a finding, or None."""
    want = 'known: property=%s key=%s ' % (prop, key)
    with open(os.path.join(runner.VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith(want):
                return line[len(want):].strip()
    return None
