"""Reference models: a calendar's queries, and the registry of calendars."""
from bisect import bisect_left, bisect_right
import zlib

import numpy as np
import pandas as pd

MIN = 60 * 10 ** 9
DAY = 86400 * 10 ** 9
NAT = np.datetime64('NaT').astype('int64')


def ts(ns):
    return pd.Timestamp(ns, tz='UTC')


def _ix(values, tz='UTC'):
    a = np.ascontiguousarray(np.asarray(values, dtype='int64'))
    return ['ix', tz, len(a), zlib.crc32(a.tobytes()),
            int(a[0]) if len(a) else None, int(a[-1]) if len(a) else None]


def canon(x):
    """An answer as plain comparable data."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if x is pd.NaT:
        return ['nat']
    if isinstance(x, pd.Timestamp):
        return ['ts', int(x.value), str(x.tz) if x.tz is not None else None]
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, pd.DatetimeIndex):
        return _ix(x.asi8, str(x.tz) if x.tz is not None else None)
    if isinstance(x, pd.Series):
        v = x.values
        if v.dtype.kind == 'M':
            v = v.astype('datetime64[ns]').astype('int64')
        return ['se', _ix(x.index.asi8), _ix(v)]
    if isinstance(x, (tuple, list)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return _ix(x.astype('int64'))
    return ['other', type(x).__name__, str(x)]


def table(cal):
    """The published schedule of what should be a calendar."""
    s = getattr(cal, 'schedule', None)
    if not isinstance(s, pd.DataFrame):
        from .runner import Violation
        raise Violation('not-a-calendar', 'a calendar was expected, not %s'
                        % type(cal).__name__)
    return s


def snapshot(cal):
    """A calendar's published tables as plain data (for equality)."""
    sch = table(cal)
    return {
        'sessions': _ix(sch.index.asi8),
        'columns': [str(c) for c in sch.columns],
        'opens': _ix(col(sch, 'market_open')),
        'closes': _ix(col(sch, 'market_close')),
        'break_starts': _ix(col(sch, 'break_start')),
        'break_ends': _ix(col(sch, 'break_end')),
        'late_opens': canon(cal.late_opens)[2:],
        'early_closes': canon(cal.early_closes)[2:],
        'minutes': canon(cal.all_minutes),
        'first': canon(cal.first_session),
        'last': canon(cal.last_session),
    }


def col(sch, name):
    s = sch[name]
    if getattr(s.dtype, 'tz', None) is not None:
        return s.dt.tz_convert('UTC').dt.tz_localize(None).values.astype(
            'datetime64[ns]').astype('int64')
    return s.values.astype('datetime64[ns]').astype('int64')


ERR = ['raises']


class CalendarModel(object):
    """Answers every query from the published schedule alone."""

    def __init__(self, sessions, opens, closes, bstarts, bends,
                 plain_execution=True):
        self.s = [int(x) for x in sessions]
        self.o = [int(x) for x in opens]
        self.c = [int(x) for x in closes]
        self.bs = [int(x) for x in bstarts]
        self.be = [int(x) for x in bends]
        self.plain_execution = plain_execution
        self.special = [None, None]
        self.sidx = {x: i for i, x in enumerate(self.s)}
        pieces = []
        self.first_of = []
        n = 0
        for o, c, b, e in zip(self.o, self.c, self.bs, self.be):
            self.first_of.append(n)
            if b == NAT:
                parts = [np.arange(o, c + MIN, MIN)]
            else:
                parts = [np.arange(o, b + MIN, MIN), np.arange(e, c + MIN, MIN)]
            for p in parts:
                pieces.append(p)
                n += len(p)
        self.first_of.append(n)
        self.m = np.concatenate(pieces)
        self.has_breaks = any(b != NAT for b in self.bs)

    @classmethod
    def of(cls, cal, plain_execution=True):
        sch = table(cal)
        m = cls(sch.index.asi8, col(sch, 'market_open'),
                col(sch, 'market_close'), col(sch, 'break_start'),
                col(sch, 'break_end'), plain_execution)
        m.special = [canon(cal.late_opens), canon(cal.early_closes)]
        return m

    # -- helpers
    def ts(self, ns):
        return ['ts', int(ns), 'UTC']

    def open_idx(self, dt):
        """The session whose open..close contains dt, or None."""
        i = bisect_right(self.o, dt) - 1
        if i >= 0 and dt <= self.c[i]:
            return i
        return None

    def in_break(self, dt):
        i = self.open_idx(dt)
        # The package counts the minute a break starts as part of it here.
        return i is not None and self.bs[i] != NAT and \
            self.bs[i] <= dt < self.be[i]

    # -- answers
    def answer(self, q):
        return getattr(self, 'q_' + q[0])(*q[1:])

    def q_is_session(self, dt):
        return dt in self.sidx

    def q_is_open_on_minute(self, dt, ignore_breaks, as_int):
        if self.open_idx(dt) is None:
            return False
        return True if ignore_breaks else not self.in_break(dt)

    def _next(self, seq, dt):
        i = bisect_right(seq, dt)
        return self.ts(seq[i]) if i < len(seq) else ERR

    def _prev(self, seq, dt):
        i = bisect_left(seq, dt)
        return self.ts(seq[i - 1]) if i else ERR

    def q_next_open(self, dt):
        return self._next(self.o, dt)

    def q_next_close(self, dt):
        return self._next(self.c, dt)

    def q_previous_open(self, dt):
        return self._prev(self.o, dt)

    def q_previous_close(self, dt):
        return self._prev(self.c, dt)

    def q_next_minute(self, dt):
        i = int(np.searchsorted(self.m, dt, side='right'))
        return self.ts(self.m[i]) if i < len(self.m) else ERR

    def q_previous_minute(self, dt):
        i = int(np.searchsorted(self.m, dt, side='left'))
        return self.ts(self.m[i - 1]) if i else ERR

    def q_next_session_label(self, s):
        i = self.sidx.get(s)
        return ERR if i is None or i + 1 >= len(self.s) \
            else self.ts(self.s[i + 1])

    def q_previous_session_label(self, s):
        i = self.sidx.get(s)
        return ERR if not i else self.ts(self.s[i - 1])

    def q_minutes_for_session(self, s):
        i = self.sidx.get(s)
        if i is None:
            return ERR
        return _ix(self.m[self.first_of[i]:self.first_of[i + 1]])

    q_execution_minutes_for_session = q_minutes_for_session

    def q_minutes_for_sessions_in_range(self, a, b):
        i, j = self.sidx[a], self.sidx[b]
        return _ix(self.m[self.first_of[i]:self.first_of[j + 1]])

    q_execution_minutes_for_sessions_in_range = \
        q_minutes_for_sessions_in_range

    def q_minutes_window(self, dt, count):
        i = int(np.searchsorted(self.m, dt, side='right')) - 1
        if count > 0:
            return _ix(self.m[i:i + count])
        return _ix(self.m[i + count + 1:i + 1])

    def q_minutes_in_range(self, a, b):
        i = int(np.searchsorted(self.m, a, side='left'))
        j = int(np.searchsorted(self.m, b, side='right'))
        return _ix(self.m[i:j])

    def _range(self, a, b):
        return bisect_left(self.s, a), bisect_right(self.s, b)

    def q_sessions_in_range(self, a, b):
        i, j = self._range(a, b)
        return _ix(self.s[i:j])

    def q_sessions_window(self, s, count):
        i = self.sidx[s]
        j = max(0, i + count)
        return _ix(self.s[min(i, j):max(i, j) + 1])

    def q_session_distance(self, a, b):
        if b < a:
            i, j = self._range(b, a)
            return -(j - i)
        i, j = self._range(a, b)
        return j - i

    def q_minutes_count_for_sessions_in_range(self, a, b):
        # The package counts a break as its end minus its start, although
        # both are minutes of the session.
        i, j = self._range(a, b)
        return sum((self.c[k] - self.o[k] -
                    (0 if self.bs[k] == NAT else self.be[k] - self.bs[k]))
                   // MIN + 1 for k in range(i, j))

    def q_open_and_close_for_session(self, s):
        i = self.sidx.get(s)
        if i is None:
            return ERR
        return [self.ts(self.o[i]), self.ts(self.c[i])]

    def q_break_start_and_end_for_session(self, s):
        i = self.sidx.get(s)
        if i is None:
            return ERR
        if self.bs[i] == NAT:
            return [['nat'], ['nat']]
        return [self.ts(self.bs[i]), self.ts(self.be[i])]

    def q_session_open(self, s):
        i = self.sidx.get(s)
        return ERR if i is None else self.ts(self.o[i])

    def q_session_close(self, s):
        i = self.sidx.get(s)
        return ERR if i is None else self.ts(self.c[i])

    def q_session_break_start(self, s):
        i = self.sidx.get(s)
        return ERR if i is None else \
            ['nat'] if self.bs[i] == NAT else self.ts(self.bs[i])

    def q_session_break_end(self, s):
        i = self.sidx.get(s)
        return ERR if i is None else \
            ['nat'] if self.be[i] == NAT else self.ts(self.be[i])

    def q_day_after(self, s):
        return self.q_next_session_label(s)

    def q_late_opens(self):
        return self.special[0]

    def q_early_closes(self):
        return self.special[1]

    def q_session_opens_in_range(self, a, b):
        i, j = self._range(a, b)
        return ['se', _ix(self.s[i:j]), _ix(self.o[i:j])]

    def q_session_closes_in_range(self, a, b):
        i, j = self._range(a, b)
        return ['se', _ix(self.s[i:j]), _ix(self.c[i:j])]

    def q_minute_to_session_label(self, dt, direction, as_int):
        i = bisect_left(self.c, dt)
        if direction == 'next':
            return ERR if i >= len(self.s) else self.ts(self.s[i])
        if direction == 'previous':
            j = bisect_right(self.o, dt) - 1
            return self.ts(self.s[j])
        if direction == 'none':
            j = self.open_idx(dt)
            if j is None or self.in_break(dt):
                return ERR
            return self.ts(self.s[j])
        return ERR

    def q_minute_index_to_session_labels(self, minutes):
        out = []
        for x in minutes:
            j = self.open_idx(x)
            if j is None:
                return ERR
            out.append(self.s[j])
        return _ix(out)

    def q_first_session(self):
        return self.ts(self.s[0])

    def q_last_session(self):
        return self.ts(self.s[-1])

    def q_all_sessions(self):
        return _ix(self.s)

    def q_all_minutes(self):
        return _ix(self.m)

    def q_opens(self):
        return ['se', _ix(self.s), _ix(self.o)]

    def q_closes(self):
        return ['se', _ix(self.s), _ix(self.c)]


ATTRS = ('first_session', 'last_session', 'all_sessions', 'all_minutes',
         'opens', 'closes', 'late_opens', 'early_closes')


def ask(cal, q, args_out=None):
    """Puts one query to a real calendar; returns the canonical answer.

    Injected errors and unwinding pass through; any other Exception is an
    answer (ERR)."""
    from .sched import INJECTED
    try:
        return canon(ask_raw(cal, q, args_out))
    except INJECTED:
        raise
    except Exception:
        return ERR


def build_args(q):
    name = q[0]
    if name in ATTRS:
        return (), {}
    if name == 'is_open_on_minute':
        return ((q[1] if q[3] else ts(q[1]),),
                {'ignore_breaks': True} if q[2] else {})
    if name == 'minute_to_session_label':
        a = q[1] if q[3] else ts(q[1])
        return ((a,), {}) if q[2] == 'next' else ((a, q[2]), {})
    if name == 'minute_index_to_session_labels':
        return (pd.DatetimeIndex(np.array(q[1], dtype='int64').view(
            'datetime64[ns]'), tz='UTC', name='asked'),), {}
    if name in ('minutes_window', 'sessions_window'):
        return (ts(q[1]), q[2]), {}
    return tuple(ts(x) for x in q[1:]), {}


PLACE = [None]                          # gives new arguments their address


def ask_raw(cal, q, args_out=None):
    if q[0] in ATTRS:
        return getattr(cal, q[0])
    a, k = build_args(q)
    if PLACE[0] is not None:
        for x in a:
            if not isinstance(x, (int, str)):
                PLACE[0](x)
    if args_out is not None:
        args_out.append((a, k))
    if q[0] == 'day_after':
        return a[0] + cal.day
    return getattr(cal, q[0])(*a, **k)


# --------------------------------------------------------- query generation

def hot_pool(m, rng, n):
    """A few instants worth asking about, shared by all threads of a run."""
    pool = []
    L = len(m.s)
    while len(pool) < n:
        i = rng.randrange(L)
        k = rng.randrange(9)
        o, c = m.o[i], m.c[i]
        if m.bs[i] != NAT and rng.random() < 0.25:
            pool.append(rng.randrange(m.bs[i] + MIN, m.be[i], MIN))
            continue
        if k == 0:
            pool.append(o)
        elif k == 1:
            pool.append(c)
        elif k == 2:
            pool.append(o - MIN)
        elif k == 3:
            pool.append(c + MIN)
        elif k == 4:
            pool.append(o + MIN * rng.randrange(1, 60))
        elif k == 5:
            pool.append(c + (o - c) // 2 // MIN * MIN)
        elif k == 6 and m.bs[i] != NAT:
            pool.append(rng.choice([m.bs[i] + MIN, m.be[i], m.be[i] - MIN,
                                    m.bs[i] - MIN]))
        elif k == 7:
            pool.append(c + rng.randrange(1, 3 * 1440) * MIN)
        elif k == 8:
            pool.append(rng.choice([o + 1, c + 1, o - 1, c - 1,
                                    o + 30 * 10 ** 9]))
    return pool


Q_WEIGHTS = [
    ('minute_to_session_label', 8), ('is_open_on_minute', 3),
    ('next_open', 2), ('next_close', 2), ('previous_open', 2),
    ('previous_close', 2), ('next_minute', 2), ('previous_minute', 2),
    ('is_session', 2), ('next_session_label', 2),
    ('previous_session_label', 2), ('minutes_for_session', 2),
    ('execution_minutes_for_session', 1), ('minutes_window', 2),
    ('minutes_in_range', 2), ('sessions_in_range', 2),
    ('sessions_window', 2), ('session_distance', 2),
    ('minutes_for_sessions_in_range', 1),
    ('execution_minutes_for_sessions_in_range', 1),
    ('minutes_count_for_sessions_in_range', 3),
    ('open_and_close_for_session', 2),
    ('break_start_and_end_for_session', 1), ('session_open', 1),
    ('session_close', 1), ('session_opens_in_range', 1),
    ('session_closes_in_range', 1), ('minute_index_to_session_labels', 2),
    ('first_session', 1), ('last_session', 1), ('all_sessions', 1),
    ('all_minutes', 2), ('opens', 1), ('closes', 1), ('late_opens', 1),
    ('early_closes', 1), ('session_break_start', 1),
    ('session_break_end', 1), ('day_after', 1),
]
Q_NAMES = [n for n, w in Q_WEIGHTS]
_Q_BAG = [n for n, w in Q_WEIGHTS for _ in range(w)]


def _day(x):
    return x // DAY * DAY


def gen_query(m, rng, pool, names=None, failing=0.06):
    """A query the model has an unambiguous answer for."""
    for _ in range(500):
        name = rng.choice(names or _Q_BAG)
        q = _gen(m, rng, pool, name, failing)
        if q is not None:
            return q
    return gen_query(m, rng, pool, ['next_open', 'is_session'], failing)


def try_query(m, rng, pool, name):
    """The same for one kind of query; None if there is none for it."""
    for _ in range(20):
        q = _gen(m, rng, pool, name, 0)
        if q is not None:
            return q


def _dt(m, rng, pool):
    if rng.random() < 0.8:
        return rng.choice(pool)
    return rng.randrange(m.o[0], m.c[-1])


def _label(m, rng, pool):
    if rng.random() < 0.7:
        dt = rng.choice(pool)
        i = min(bisect_left(m.c, dt), len(m.s) - 1)
        return m.s[i]
    return rng.choice(m.s)


def _gen(m, rng, pool, name, failing):
    fail = rng.random() < failing
    if name in ATTRS:
        return [name]
    if name == 'minute_to_session_label':
        d = rng.choice(['next', 'next', 'next', 'next', 'previous', 'none'])
        dt = _dt(m, rng, pool)
        if fail:
            if rng.random() < 0.5:
                return [name, dt, 'sideways', False]
            return [name, m.c[-1] + MIN * rng.randrange(1, 9999), 'next',
                    rng.random() < 0.3]
        if d != 'next' and not m.o[0] <= dt <= m.c[-1]:
            return None
        return [name, dt, d, rng.random() < 0.3]
    if name == 'is_open_on_minute':
        dt = _dt(m, rng, pool)
        ib = rng.random() < 0.3
        return [name, dt, ib, rng.random() < 0.3]
    if name in ('next_open', 'next_close', 'next_minute'):
        if fail:
            return [name, m.c[-1] + MIN * rng.randrange(0, 9999)]
        return [name, _dt(m, rng, pool)]
    if name in ('previous_open', 'previous_close', 'previous_minute'):
        if fail:
            return [name, m.o[0] - MIN * rng.randrange(0, 9999)]
        return [name, _dt(m, rng, pool)]
    if name == 'is_session':
        if rng.random() < 0.5:
            return [name, _label(m, rng, pool)]
        return [name, _day(_dt(m, rng, pool)) + DAY * rng.randrange(-3, 4)]
    if name in ('next_session_label', 'previous_session_label',
                'minutes_for_session', 'execution_minutes_for_session',
                'open_and_close_for_session', 'session_open', 'session_close',
                'break_start_and_end_for_session', 'session_break_start',
                'session_break_end', 'day_after'):
        if name == 'day_after':
            s = _label(m, rng, pool)
            return [name, s] if s != m.s[-1] else None
        if name.startswith('execution') and not m.plain_execution:
            return None
        if fail:
            s = _label(m, rng, pool)
            for _ in range(10):
                s += DAY
                if s not in m.sidx:
                    return [name, s]
            return [name, m.s[-1] + 40 * DAY]
        return [name, _label(m, rng, pool)]
    if name in ('minutes_for_sessions_in_range',
                'execution_minutes_for_sessions_in_range'):
        if name.startswith('execution') and not m.plain_execution:
            return None
        i = m.sidx[_label(m, rng, pool)]
        j = min(len(m.s) - 1, i + rng.randrange(0, 4))
        if name.startswith('execution'):
            # slow: one boxed timestamp per minute
            if m.first_of[i + 1] - m.first_of[i] > 700:
                return None
            j = min(j, i + 1)
        return [name, m.s[i], m.s[j]]
    if name == 'minutes_window':
        dt = _dt(m, rng, pool)
        if not m.m[0] <= dt <= m.m[-1]:
            return None
        i = int(np.searchsorted(m.m, dt, side='right')) - 1
        if rng.random() < 0.6:
            return [name, dt, rng.randrange(1, min(800, len(m.m) - i) + 1)]
        return [name, dt, -rng.randrange(1, min(800, i + 1) + 1)]
    if name == 'minutes_in_range':
        a, b = sorted([_dt(m, rng, pool), _dt(m, rng, pool)])
        if b - a > 20 * DAY:
            b = a + 20 * DAY
        if b > m.m[-1]:
            return None
        return [name, a, b]
    if name in ('sessions_in_range', 'session_opens_in_range',
                'session_closes_in_range'):
        a = _day(_dt(m, rng, pool))
        return [name, a, a + DAY * rng.randrange(0, 40)]
    if name == 'minutes_count_for_sessions_in_range':
        i = m.sidx[_label(m, rng, pool)]
        j = min(len(m.s) - 1, i + rng.randrange(0, 20))
        return [name, m.s[i], m.s[j]]
    if name == 'sessions_window':
        return [name, _label(m, rng, pool), rng.randrange(-12, 13)]
    if name == 'session_distance':
        return [name, _label(m, rng, pool), _label(m, rng, pool)]
    if name == 'minute_index_to_session_labels':
        out = set()
        for _ in range(rng.randrange(1, 6)):
            i = m.sidx[_label(m, rng, pool)]
            lo, hi = m.first_of[i], m.first_of[i + 1]
            out.add(int(m.m[rng.randrange(lo, hi)]))
        if fail:
            out.add(m.c[m.sidx[_label(m, rng, pool)]] + MIN)
        return [name, sorted(out)]
    raise KeyError(name)


# ----------------------------------------------------------------- registry

class RegState(object):
    """What every name stands for.  Immutable.

    cals:  name -> token of a calendar object, or ('any', fid)
    facts: name -> fid
    als:   name -> target name
    """
    __slots__ = ('cals', 'facts', 'als', '_key')

    def __init__(self, cals=(), facts=(), als=()):
        self.cals, self.facts, self.als = dict(cals), dict(facts), dict(als)
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.cals.items())),
                         tuple(sorted(self.facts.items())),
                         tuple(sorted(self.als.items())))
        return self._key

    def __eq__(self, other):
        return self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def copy(self):
        return RegState(self.cals, self.facts, self.als)

    def has(self, n):
        return n in self.cals or n in self.facts or n in self.als

    def names(self):
        return sorted(set(self.cals) | set(self.facts) | set(self.als))

    def resolve(self, n, overlay=None):
        """Canonical name, or None for a cycle."""
        als = self.als if overlay is None else dict(self.als, **overlay)
        seen = set()
        while n in als:
            if n in seen:
                return None
            seen.add(n)
            n = als[n]
        return n

    def drop(self, n):
        s = self.copy()
        s.cals.pop(n, None)
        s.facts.pop(n, None)
        s.als.pop(n, None)
        return s

    def drop_cache(self, n):
        """The same registration without the object built from it."""
        s = self.copy()
        if n in s.facts:
            s.cals.pop(n, None)
        return s


COLLISION, INVALID, CYCLE, BUILD = (
    ['err', 'CalendarNameCollision'], ['err', 'InvalidCalendarName'],
    ['err', 'CyclicCalendarAlias'], ['err', 'BuildError'])


def reg_apply(st, op, obs, may_fail):
    """States the registry may be in after ``op`` gave ``obs``.

    Empty when ``obs`` is not a possible result of ``op`` in ``st``.
    A token of a built calendar is ('made', fid, serial).
    """
    kind = op[0]
    if kind == 'get':
        c = st.resolve(op[1])
        if c is None:
            return [st] if obs == CYCLE else []
        if c in st.cals:
            tok = st.cals[c]
            if obs[0] != 'cal':
                return []
            if tok[0] == 'any':
                if obs[1][0] == 'made' and obs[1][1] == tok[1]:
                    s = st.copy()
                    s.cals[c] = obs[1]
                    return [s]
                return []
            return [st] if obs[1] == tok else []
        if c in st.facts:
            f = st.facts[c]
            if obs == BUILD:
                return [st] if may_fail(f) else []
            if obs[0] == 'cal' and obs[1][0] == 'made' and obs[1][1] == f:
                s = st.copy()
                s.cals[c] = obs[1]
                return [s]
            return []
        return [st] if obs == INVALID else []
    if kind == 'names':
        return [st] if obs == ['names', st.names()] else []
    if kind == 'has':
        return [st] if obs == ['val', st.has(op[1])] else []
    if kind == 'resolve':
        c = st.resolve(op[1])
        want = CYCLE if c is None else ['val', c]
        return [st] if obs == want else []
    want, new = reg_write(st, op)
    return [new] if obs == want else []


def reg_write(st, op):
    """(result, state) of an operation that changes the registry."""
    kind = op[0]
    if kind == 'dereg':
        return ['val', None], st.drop(op[1])
    if kind == 'clear':
        return ['val', None], RegState()
    name, force = op[1], op[3]
    if not force and st.has(name):
        return COLLISION, st
    new = st.drop(name)
    if kind == 'reg':
        new.cals[name] = ('obj', op[2])
    elif kind == 'regtype':
        new.facts[name] = op[2]
    elif kind == 'alias':
        new.als[name] = op[2]
        if new.resolve(name) is None:
            return CYCLE, st
    else:
        raise KeyError(kind)
    return ['val', None], new


def reg_aborted(st, op):
    """States allowed after ``op`` was aborted part way."""
    kind = op[0]
    out = [st]
    if kind == 'get':
        c = st.resolve(op[1])
        if c is not None and c not in st.cals and c in st.facts:
            s = st.copy()
            s.cals[c] = ('any', st.facts[c])
            out.append(s)
        return out
    if kind in ('names', 'has', 'resolve'):
        return out
    if kind == 'clear':
        names = st.names()
        for mask in range(1, 1 << len(names)):
            s = st
            for i, n in enumerate(names):
                if mask >> i & 1:
                    s = s.drop(n)
            out.append(s)
        # objects built for a name may go before the name does
        return list(set(out + [s2 for s in out
                               for s2 in _cache_drops(s)]))
    res, new = reg_write(st, op)
    if res == ['val', None]:
        out += [new, st.drop(op[1]), st.drop_cache(op[1])]
    return list(set(out))


def _cache_drops(st):
    cached = [n for n in st.facts if n in st.cals]
    for mask in range(1, 1 << len(cached)):
        s = st
        for i, n in enumerate(cached):
            if mask >> i & 1:
                s = s.drop_cache(n)
        yield s


def linearize(history, init, may_fail, limit=200000):
    """history: list of (call, ret, op, obs).  True when some order of the
    operations that respects call/return order explains every result; None
    when the search gave up."""
    n = len(history)
    order = sorted(range(n), key=lambda i: history[i][0])
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    steps = 0
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        k = (done, st.key())
        if k in seen:
            continue
        seen.add(k)
        steps += 1
        if steps > limit:
            return None
        # an operation can go next if no unfinished one returned before it
        # was called
        horizon = min(history[i][1] for i in order if not done >> i & 1)
        for i in order:
            if done >> i & 1:
                continue
            call, ret, op, obs = history[i]
            if call > horizon:
                break
            for s2 in reg_apply(st, op, obs, may_fail):
                stack.append((done | 1 << i, s2))
    return False
