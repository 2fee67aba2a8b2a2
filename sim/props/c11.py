"""C11: a copied or unpickled calendar answers like the original."""
import copy
import gc
import io
import pickle
import zlib

import numpy as np
import pandas as pd

from .. import alloc, clock, model, runner, sched
from . import build, common, nodes
from .common import T

ID = 'C11'
LEVEL = 'exploration'
PLAN = {'quick': (6000, 65), 'thorough': (200000, 800)}
CHUNK = 4
RULE = ('A run queries a calendar of a seeded exchange and window (also with '
        'the default end), copies it by copy, deepcopy or any pickle '
        'protocol, copies the copies, sends pickles to processes started at '
        'other instants and time zones, overwrites the tables of independent '
        'copies, drops and collects some, and goes on querying all of them, '
        'in 6-30 steps; queries are cut short by injected errors, and '
        'pickles fail at a seeded write or are truncated. Every answer must '
        'be the one of the original\'s published schedule, every published '
        'table must stay as it was. Non-trivial: a calendar was copied after '
        'a query and the copy was asked. Distinct: by digest of operations '
        'and executed code sites.')
REAL = ['trading_calendars (whole package, from the working tree)', 'pandas',
        'numpy', 'pytz', 'copy', 'pickle']
STUBS = ['wall clock',
         'programs on the hosts (none installed)',
         'process start (fork, then import)',
         'addresses of calendars (reused at once)',
         'years for which holidays are listed']
ASSUMPTIONS = ['Tables of a shallow copy may be shared with the original.']
KINDS = ['24/5', '24/7', 'XSHG', 'XBOM', 'XSES', 'CMES', 'us_futures', 'XHKG',
         'XNYS', 'XTAE', 'XKRX', 'XSGO', 'SYN']
WINDOWS = [('2018-11-15', '2019-01-21'), ('2019-02-20', '2019-04-25'),
           ('2023-05-15', None)]
METHODS = ['copy', 'deepcopy', 'p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'py2',
           'py5']
KEYS = []
CAL = {}
M = {}
SNAP = {}
META = {}


def meta(cal):
    """What else the calendar says about itself."""
    d = {}
    for k in ('name', 'weekmask', 'open_offset', 'close_offset',
              'open_times', 'close_times', 'break_start_times',
              'break_end_times'):
        d[k] = str(getattr(cal, k, None))
    d['tz'] = str(cal.tz)
    d['class'] = type(cal).__module__ + '.' + type(cal).__name__
    s = cal.schedule.index[len(cal.schedule) // 2]
    for k in ('execution_time_from_open', 'execution_time_from_close'):
        f = getattr(cal, k, None)
        if f is not None:
            d[k] = str(f(cal.open_and_close_for_session(s)[0]))
    d['day'] = str(s + cal.day)
    d['minutes to count'] = int(
        cal.minutes_count_for_sessions_in_range(s, s))
    return d


def factory(kind):
    if kind == 'SYN':
        # Has late opens; none of the package's calendars does.
        return common.synthetic()
    return common.factories().get(kind)


def warm():
    nodes.start(nodes.PARENT)
    import trading_calendars as tc
    nodes.narrow(pd.Timestamp('2010-01-01').value,
                 pd.Timestamp('2030-01-01').value)
    for kind in KINDS:
        for w, (a, b) in enumerate(WINDOWS):
            if kind not in ('XNYS', 'XSHG', 'XTAE', '24/5') and b is None:
                continue
            cls = factory(kind)
            if cls is None:
                continue
            try:
                # The originals of all runs.
                cal = cls(T(a)) if b is None else cls(T(a), T(b))
            except Exception:
                # Not this property's business.
                continue
            KEYS.append((kind, w))
            CAL[kind, w] = cal
            twin = cls(T(a), cal.schedule.index[-1])
            M[kind, w] = model.CalendarModel.of(twin, kind != 'us_futures')
            SNAP[kind, w] = model.snapshot(twin)
            META[kind, w] = meta(twin)
    clock.off()
    alloc.watch(tc.TradingCalendar)
    gc.collect()


def recheck(i):
    return i % 97 == 7


def adequate(cover):
    return cover.sums.get('answers_of_copies', 0) > 300


def generate(rng, i, tier):
    key = KEYS[i % len(KEYS)]
    m = M[key]
    pool = model.hot_pool(m, rng, 4)
    n = 1
    ops = []
    faulty = rng.choice([0, 0.1, 0.3])

    def queries(k):
        out = []
        while len(out) < k:
            q = model.gen_query(m, rng, pool, None, 0.1)
            if q[0] != 'execution_minutes_for_sessions_in_range':
                out.append(q)
        return out

    steps = rng.randint(6, 30)
    # Starting a process is slow.
    ship = rng.randrange(steps) if i % 7 == 3 else None
    for step in range(steps):
        r = rng.random()
        s = rng.randrange(n)
        if step != ship and n < 4 and (r < 0.25 or (n == 1 and r < 0.4)):
            fault = None
            if rng.random() < 0.15:
                fault = rng.choice([['write', rng.choice([1, 2, 5, 20, 60])],
                                    ['cut', rng.random()]])
            ops.append(['copy', s, rng.choice(METHODS), fault])
            if not fault:
                n += 1
        elif step == ship:
            ops.append(['ship', s, rng.choice([0, 2, 4, 5]),
                        rng.randint(nodes.T0, nodes.T1),
                        rng.choice(nodes.ZONES), queries(3),
                        rng.random() < 0.3])
        elif r < 0.40 and n > 1:
            ops.append(['scribble', rng.randrange(1, n)])
        elif r < 0.44:
            ops.append(['gc'])
        elif r < 0.48 and n > 1:
            ops.append(['drop', rng.randrange(1, n)])
        elif r < 0.56:
            ops.append(['snapshot', s])
        else:
            fault = None
            if rng.random() < faulty:
                fault = [rng.randint(1, 60),
                         rng.choice(sorted(sched.FAULT_KINDS))]
            ops.append(['query', s, queries(1)[0], fault])
    return {'key': list(key), 'ops': ops}


class Failing(io.BytesIO):
    def __init__(self, n):
        io.BytesIO.__init__(self)
        self.n = n

    def write(self, b):
        self.n -= 1
        if self.n <= 0:
            raise OSError(28, 'simulated')
        return io.BytesIO.write(self, b)


def dump(cal, method, f):
    pickler = pickle._Pickler if method.startswith('py') else pickle.Pickler
    protocol = int(method.lstrip('py'))
    try:
        pickler(f, protocol).dump(cal)
    except AssertionError as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if protocol < 5 or tb.tb_frame.f_code.co_name != 'memoize':
            raise
        # PyPy's pickle takes two arrays of equal short contents for one
        # object and gives up; that is none of the package's doing.
        f.seek(0)
        f.truncate()
        pickler(f, 4).dump(cal)


def load(data, method):
    if method.startswith('py'):
        return pickle._Unpickler(io.BytesIO(data)).load()
    return pickle.loads(data)


def received(item):
    """In another process: restore the calendar and ask it."""
    key, data, t, tz, qs, before = item
    key = tuple(key)
    where = '%s restored by a process started at %s (TZ %s)' % (
        key, pd.Timestamp(t), tz)
    try:
        nodes.start(t, tz, 1000)
        common.synthetic()
        if before:
            # The process already uses the exchange.
            a, b = WINDOWS[0]
            model.snapshot(factory(key[0])(T(a), T(b)))
        try:
            cal = pickle.loads(data)
        except Exception as e:
            raise runner.Violation('not-restored', '%s: %s: %s' % (
                where, type(e).__name__, str(e)[:300]))
        for q in qs:
            compare(cal, key, q, where)
        tables(cal, key, where)
        again = pickle.loads(pickle.dumps(cal))
        tables(again, key, where + ' and pickled again')
    except runner.Violation as v:
        return [v.kind, v.detail]
    return None


def compare(cal, key, q, where):
    got = model.ask(cal, q, [])
    want = M[key].answer(q)
    if got != want:
        raise runner.Violation('answers-differ', '%s: %s answered %s, the '
                               'original says %s' % (where, q, got, want))


def tables(cal, key, where):
    try:
        snap, me = model.snapshot(cal), meta(cal)
    except Exception as e:
        raise runner.Violation('unusable', '%s: %s: %s' % (
            where, type(e).__name__, str(e)[:300]))
    if snap != SNAP[key]:
        raise runner.Violation('tables-differ', '%s: %s' % (
            where, [k for k in snap if snap[k] != SNAP[key][k]]))
    if me != META[key]:
        raise runner.Violation('tables-differ', '%s: %s' % (
            where, [(k, me[k], META[key][k]) for k in me
                    if me[k] != META[key][k]]))


def scribble(cal):
    """Overwrite what an independent copy holds."""
    n = 0
    for k, v in sorted(vars(cal).items()):
        if any(getattr(c, k, None) is v for c in type(cal).__mro__):
            continue
        if isinstance(v, np.ndarray) and v.dtype.kind in 'if':
            if v.flags.writeable and v.flags.owndata:
                v[...] = 7
                n += 1
        elif isinstance(v, (pd.DataFrame, pd.Series)):
            try:
                v.iloc[:] = v.iloc[::-1].values
                n += 1
            except Exception:
                pass
    return n


def execute(spec):
    out = {'sums': {}, 'sets': {'methods': set()}, 'faults': {}, 'digest': 0}
    key = tuple(spec['key'])
    slots = [['original', CAL[key]]]
    asked = set()
    copied_after_query = False

    def count(k, n=1):
        out['sums'][k] = out['sums'].get(k, 0) + n

    def fault(k):
        out['faults'][k] = out['faults'].get(k, 0) + 1

    def mix(x):
        out['digest'] = zlib.crc32(repr(x).encode(), out['digest'])

    nodes.resume(nodes.PARENT + nodes.DAY, 'UTC', 1000)
    for op in spec['ops']:
        mix(op)
        kind = op[0]
        if kind != 'gc' and op[1] >= len(slots) or \
                kind != 'gc' and slots[op[1]] is None:
            continue
        if kind == 'gc':
            for _ in range(3):
                gc.collect()
            fault('garbage collection')
            continue
        name, cal = slots[op[1]]
        where = '%s: %s' % (key, name)
        if kind == 'query':
            q, flt = op[2], op[3]
            fp = sched.FaultPoint(*(flt or ()))
            try:
                with fp:
                    got = model.ask(cal, q, [])
            except sched.INJECTED:
                got = None
            except Exception:
                if fp.fired is None:
                    raise
                got = None
            mix(fp.digest)
            if fp.fired is not None:
                fault(flt[1])
                if got == model.ERR:
                    got = None
            asked.add(op[1])
            if got is None:
                continue
            want = M[key].answer(q)
            if got != want:
                raise runner.Violation(
                    'answers-differ', '%s: %s answered %s, the schedule of '
                    'the original says %s' % (where, q, got, want))
            if op[1]:
                count('answers_of_copies')
                if copied_after_query:
                    out['nontrivial'] = True
        elif kind == 'snapshot':
            tables(cal, key, where)
        elif kind == 'copy':
            method, flt = op[2], op[3]
            out['sets']['methods'].add(method)
            copied_after_query = copied_after_query or op[1] in asked
            what = '%s, copied by %s' % (name, method)
            try:
                if method == 'copy':
                    new = copy.copy(cal)
                elif method == 'deepcopy':
                    new = copy.deepcopy(cal)
                else:
                    f = Failing(flt[1]) if flt and flt[0] == 'write' \
                        else io.BytesIO()
                    dump(cal, method, f)
                    data = f.getvalue()
                    if flt and flt[0] == 'cut':
                        data = data[:int(len(data) * flt[1])]
                    new = load(data, method)
            except Exception as e:
                if flt is None:
                    raise runner.Violation(
                        'not-copied', '%s: %s: %s: %s' % (
                            key, what, type(e).__name__, str(e)[:300]))
                fault('write failed' if flt[0] == 'write' else
                      'pickle truncated')
                continue
            count('copies')
            slots.append([what, new])
        elif kind == 'drop':
            slots[op[1]] = None
        elif kind == 'scribble':
            if not name.endswith('by copy') and op[1] and \
                    not related(slots, op[1]):
                count('tables_overwritten', scribble(cal))
                slots[op[1]] = None
        elif kind == 'ship':
            f = io.BytesIO()
            dump(cal, 'p%d' % op[2], f)
            data = f.getvalue()
            bad = runner.parallel_map(
                received, [[key, data, op[3], op[4], op[5], op[6]]])[0]
            if bad:
                raise runner.Violation(*bad)
            count('restored_in_other_processes')
            count('answers_of_copies', len(op[5]))
            if op[1] in asked:
                out['nontrivial'] = True
    for s in slots:
        if s is not None:
            tables(s[1], key, '%s: %s' % (key, s[0]))
    out['sets']['methods'] = sorted(out['sets']['methods'])
    out['sets']['calendars'] = ['%s/%d' % key]
    out['digest'] = '%08x' % out['digest']
    out['sample'] = {'calendar': spec['key'],
                     'ops': [o[:3] for o in spec['ops'][:10]]}
    return out


def related(slots, i):
    """A shallow copy of this one may share its tables."""
    name = slots[i][0]
    return any(s is not None and s[0].startswith(name + ', copied by copy')
               for s in slots)


def shrink(spec):
    for c in runner.ddmin_candidates(spec['ops']):
        yield dict(spec, ops=c)
    for i, o in enumerate(spec['ops']):
        if o[0] in ('query', 'copy') and o[3]:
            yield dict(spec, ops=spec['ops'][:i] + [o[:3] + [None]] +
                       spec['ops'][i + 1:])
        if o[0] == 'ship' and len(o[5]) > 1:
            yield dict(spec, ops=spec['ops'][:i] + [
                o[:5] + [o[5][:1], False]] + spec['ops'][i + 1:])
