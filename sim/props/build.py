"""Reference constructions, each made alone in a fresh process."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd

from .. import instrument, model, rt, runner
from . import common
from .common import T

WINDOWS = [('2018-11-15', '2019-01-21'), ('2019-06-20', '2019-09-10')]
REF = {}
NAMES = []
COST = {}
ODD = []


def make(name, w):
    a, b = WINDOWS[w]
    return cls_of(name)(start=T(a), end=T(b))


def cls_of(name):
    if name.startswith('SYN'):
        return common.synthetic(name == 'SYNB', name)
    return common.factories()[name]


def _ref(item):
    name, w = item
    first = {}
    second = {}
    last = {}
    n = [0]

    def hook(site):
        n[0] += 1
        if site not in first:
            first[site] = n[0]
        elif site not in second:
            second[site] = n[0]
        last[site] = n[0]
    rt.set_hook(hook)
    cal = make(name, w)
    rt.set_hook(None)
    return {'snap': model.snapshot(cal), 'n': n[0],
            'first': sorted(first.values()),
            'sites': sorted([k, sorted({first[k], second.get(k, first[k]),
                                        last[k]})] for k in first)}


def some_name(rng, k):
    """In turn; those that keep state of their own more often."""
    if ODD and rng.random() < 0.25:
        return rng.choice(ODD)
    return NAMES[k % len(NAMES)]


def some_point(rng, ref):
    if rng.random() < 0.15:
        return rng.randint(1, ref['n'])
    return rng.choice(rng.choice(ref['aims']))


def narrow():
    """List holidays of 2010-2030 rather than 1970-2200: five times faster.

    The listing itself keeps what it found; threads may meet there too."""
    import pandas as pd
    from pandas.tseries.holiday import AbstractHolidayCalendar
    instrument.rewrite(AbstractHolidayCalendar, 'holidays')
    AbstractHolidayCalendar.start_date = pd.Timestamp('2010-01-01')
    AbstractHolidayCalendar.end_date = pd.Timestamp('2030-12-31')


def compute_refs(names=None, windows=(0, 1)):
    narrow()
    import trading_calendars  # noqa
    before = process_state()
    # Warm up the interpreter, then forget the package's own state.
    for n in ('XNYS', 'XLON', 'XHKG', 'XTAE', 'XBUE', 'CMES', 'XSHG', 'XASX'):
        model.snapshot(make(n, 0))
        diff = diff_state(before, process_state())
        if diff:
            raise runner.Violation('process-state', 'after the construction '
                                   'of %s: %s' % (n, diff))
    instrument.purge()
    common.forget()
    import trading_calendars  # noqa
    del NAMES[:]
    NAMES.extend(names or (sorted(common.factories()) + ['SYN', 'SYNB']))
    for n in NAMES:
        cls_of(n)
    items = [(n, w) for n in NAMES for w in windows]
    for (n, w), r in zip(items, runner.parallel_map(_ref, items)):
        r['snap'] = model_json(r['snap'])
        REF[(n, w)] = r
        COST[n] = max(COST.get(n, 0), r['n'])
    # Points in code that few exchanges share.
    users = {}
    for (n, w), r in REF.items():
        for k, _ in r['sites']:
            users.setdefault(k, set()).add(n)
    for (n, w), r in REF.items():
        own = {x for k, ps in r['sites'] if len(users[k]) <= 8 for x in ps}
        state = {x for k, ps in r.pop('sites') if k in rt.STATEFUL
                 for x in ps}
        r['aims'] = [sorted(x) for x in (own & state, state, own, r['first'])
                     if x]
        if own & state and not n.startswith('SYN') and n not in ODD:
            ODD.append(n)


def model_json(x):
    """What a value looks like after a trip through JSON."""
    import json
    return json.loads(json.dumps(x))


def compare(cal, name, w):
    """None, or how the calendar differs from the reference."""
    snap = model_json(model.snapshot(cal))
    want = REF[(name, w)]['snap']
    if snap == want:
        return None
    keys = [k for k in want if snap.get(k) != want[k]]
    return '%s window %s differs in %s: %s instead of %s' % (
        name, WINDOWS[w], keys, [snap.get(k) for k in keys][:2],
        [want[k] for k in keys][:2])


def process_state(registry=True):
    """Process-wide settings a construction has no business changing."""
    import trading_calendars as tc
    from pandas.tseries.holiday import AbstractHolidayCalendar as A
    mask = os.umask(0o22)
    os.umask(mask)
    return {
        'warning filters': [repr(f) for f in warnings.filters],
        'showwarning': id(warnings.showwarning),
        'numpy errors': sorted(np.geterr().items()),
        'locale': locale.setlocale(locale.LC_ALL, None),
        'cwd': os.getcwd(),
        'environment': sorted(os.environ.items()),
        'recursion limit': sys.getrecursionlimit(),
        'threads': threading.active_count(),
        'pandas options': flat(pd._config.config._global_config),
        'listed years': [str(A.start_date), str(A.end_date), str(A.rules)],
        'numpy printing': sorted(str(x) for x in
                                 np.get_printoptions().items()),
        'random numbers': [hash(random.getstate()),
                           hash(np.random.get_state()[1].tobytes())],
        'collector': [gc.isenabled(), gc.get_threshold()
                      if hasattr(gc, 'get_threshold') else None],
        'signals': [str(signal.getsignal(n)) for n in
                    (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)],
        'decimal context': str(decimal.getcontext()),
        'umask': mask,
        'module path': list(sys.path),
        'logging': [logging.root.level, logging.root.manager.disable,
                    len(logging.root.handlers)],
        'trace functions': [str(sys.gettrace()), str(sys.getprofile())],
        'hooks': [str(sys.excepthook), str(sys.displayhook)],
        'switch interval': sys.getswitchinterval(),
        'zone': time.tzname,
        'registry': sorted(tc.get_calendar_names()) if registry else None,
    }


def flat(options):
    """pandas' options as one sorted list."""
    out = []
    for k, v in sorted(options.items()):
        if isinstance(v, dict):
            out += ['%s.%s' % (k, x) for x in flat(v)]
        else:
            out.append('%s=%r' % (k, v))
    return out


def diff_state(a, b):
    return ['%s: %s -> %s' % (k, str(a[k])[:300], str(b[k])[:300])
            for k in a if a[k] != b[k]]
