"""The seeded scheduler.

A simulated thread is a coroutine (greenlet) on one interpreter thread.  The
running one keeps the processor until a scheduling point that instrument.py
added to the package under test, a blocking operation on a simulated lock, or
its end.  Where control goes is decided by a seeded strategy or by an explicit
list of decisions (a replay), so one spec gives one interleaving.

At a scheduling point the simulator can also raise an injected error in the
running thread, or run an event (a callback, e.g. a clock jump or a garbage
collection).

Everything the package could use to tell threads apart or to block them
(locks, conditions, events, thread-local data, thread identity, sleep) is
replaced by a version that knows the simulated threads.
"""
import functools
import os
import random
import sys
import threading
import time
import zlib
import _thread

import greenlet

from . import rt

AT_FORK = {'before': [], 'after_in_parent': [], 'after_in_child': []}
_forked = [0]
_vanished = []
CURRENT = None          # the active Scheduler, if any
_real_get_ident = _thread.get_ident


class SimAbort(BaseException):
    """Unwinds the simulated threads of a run that has been given up."""


class InjectedError(Exception):
    """An injected failure that is no subclass of anything the code catches."""


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


FAULT_KINDS = {
    'error': InjectedError,
    'memory': InjectedMemoryError,
    'interrupt': InjectedInterrupt,
}

INJECTED = (InjectedError, InjectedMemoryError, InjectedInterrupt)


class Task(object):
    __slots__ = ('tid', 'fn', 'g', 'ident', 'op', 'local', 'done', 'waiting',
                 'exc')

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.g = None
        self.ident = 0x51000000 + tid
        self.op = -1            # id of the operation being executed
        self.local = 0          # scheduling points passed in that operation
        self.done = False
        self.waiting = None
        self.exc = None


# ---------------------------------------------------------------- strategies

class Solo(object):
    """Never preempts."""
    def pick(self, task, site, others):
        return None

    def choose(self, runnable):
        return runnable[0]


class RandomWalk(object):
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def pick(self, task, site, others):
        if self.rng.random() < self.p:
            return others[self.rng.randrange(len(others))]
        return None

    def choose(self, runnable):
        return runnable[self.rng.randrange(len(runnable))]


class HotSites(object):
    """Preempts often, but only at a random subset of the code's sites."""
    def __init__(self, rng, salt, mod, p):
        self.rng, self.salt, self.mod, self.p = rng, salt, mod, p

    def pick(self, task, site, others):
        h = zlib.crc32(b'%d/%d' % (self.salt, site))
        if h % self.mod == 0 and self.rng.random() < self.p:
            return others[self.rng.randrange(len(others))]
        return None

    def choose(self, runnable):
        return runnable[self.rng.randrange(len(runnable))]


class PCT(object):
    """Priority scheduling with a few random priority changes."""
    def __init__(self, rng, n, depth, length):
        self.rng = rng
        self.prio = {i: n + depth - k for k, i in
                     enumerate(rng.sample(range(n), n))}
        self.changes = {rng.randrange(max(1, length)): d
                        for d in range(depth)}
        self.step = 0
        self.low = 0

    def yielded(self, task):
        """A thread that sleeps or polls goes behind all others."""
        self.low -= 1
        self.prio[task.tid] = self.low

    def pick(self, task, site, others):
        self.step += 1
        d = self.changes.get(self.step)
        if d is not None:
            self.prio[task.tid] = d
        best = max(others, key=lambda t: self.prio[t.tid])
        if self.prio[best.tid] > self.prio[task.tid]:
            return best
        return None

    def choose(self, runnable):
        return max(runnable, key=lambda t: self.prio[t.tid])


class ForkAt(object):
    """Lets the last thread run, to fork, at one scheduling point of another;
    otherwise as the strategy inside says."""
    def __init__(self, inner, forker, at):
        self.inner, self.forker = inner, forker
        self.nth = 0
        if isinstance(at[2], list):
            # Counts only points in functions that seem to change something.
            self.nth = at[2][1]
        self.at = tuple(at[:2])
        self.local = at[2]

    def due(self, task, site):
        if (task.tid, task.op) != self.at:
            return False
        if not self.nth:
            return task.local == self.local
        if site in rt.STATEFUL:
            self.nth -= 1
            return not self.nth
        return False

    def pick(self, task, site, others):
        if task.tid == self.forker:
            return None
        if self.due(task, site):
            for t in others:
                if t.tid == self.forker:
                    return t
        others = [t for t in others if t.tid != self.forker]
        return self.inner.pick(task, site, others) if others else None

    def choose(self, runnable):
        rest = [t for t in runnable if t.tid != self.forker]
        return self.inner.choose(rest) if rest else runnable[0]


class Explicit(object):
    """Replays recorded decisions; anything not recorded does not preempt."""
    def __init__(self, decisions):
        self.pre = {}
        self.forced = {}
        for kind, tid, op, local, target in decisions:
            d = self.pre if kind == 'p' else self.forced
            d[(tid, op, local)] = target

    def pick(self, task, site, others):
        target = self.pre.get((task.tid, task.op, task.local))
        if target is None:
            return None
        for t in others:
            if t.tid == target:
                return t
        return None

    def choose(self, runnable, key=None):
        target = self.forced.get(key)
        for t in runnable:
            if t.tid == target:
                return t
        return runnable[0]


def make_strategy(spec, n):
    """spec: ['solo'] | ['rw', seed, p] | ['hot', seed, mod, p]
    | ['pct', seed, depth, length] | ['x', decisions]
    | ['fork', inner, [tid, op, local]]; local may be ['s', n]: see ForkAt"""
    kind = spec[0]
    if kind == 'solo':
        return Solo()
    if kind == 'rw':
        return RandomWalk(random.Random(spec[1]), spec[2])
    if kind == 'hot':
        return HotSites(random.Random(spec[1]), spec[1] & 0xffff, spec[2],
                        spec[3])
    if kind == 'pct':
        return PCT(random.Random(spec[1]), n, spec[2], spec[3])
    if kind == 'fork':
        return ForkAt(make_strategy(spec[1], n - 1), n - 1, spec[2])
    if kind == 'x':
        return Explicit([tuple(d) for d in spec[1]])
    raise ValueError(kind)


def random_strategy(rng, length):
    r = rng.random()
    seed = rng.getrandbits(40)
    if r < 0.35:
        return ['rw', seed, rng.choice([0.5, 0.3, 0.15, 0.05, 0.02])]
    if r < 0.7:
        return ['hot', seed, rng.choice([3, 6, 12, 25]),
                rng.choice([0.9, 0.5])]
    return ['pct', seed, rng.randint(1, 4), length]


# ----------------------------------------------------------------- scheduler

class Scheduler(object):
    def __init__(self, strategy, max_steps=200000, faults=(), events=()):
        """faults: [tid, op, local, kind];
        events: {(tid, op, local): callable}"""
        self.strategy = strategy
        self.max_steps = max_steps
        self.tasks = []
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.decisions = []
        self.digest = 0
        self.problem = None         # 'deadlock' | 'no-progress'
        self.aborting = False
        self.hub = None
        self.faults = {}
        for tid, op, local, kind in faults:
            self.faults[(tid, op, local)] = kind
        self.events = dict(events)
        self.fired = []
        self.clock = 0              # logical time for operation intervals
        self.in_event = False
        self.quiet = set()          # tids whose faults are disarmed
        self.switch_sites = set()

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def stamp(self):
        self.clock += 1
        return self.clock

    def begin_op(self, op):
        self.cur.op = op
        self.cur.local = 0

    # -- the hook called by instrumented code
    def hook(self, site):
        t = self.cur
        if t is None or self.in_event or t.g is not greenlet.getcurrent():
            return
        if self.aborting:
            raise SimAbort()
        t.local += 1
        self.steps += 1
        self.digest = zlib.crc32(b'%d:%d' % (t.tid, site), self.digest)
        if self.steps > self.max_steps:
            self.problem = 'no-progress'
            self.abort()
            raise SimAbort()
        if self.events:
            ev = self.events.pop((t.tid, t.op, t.local), None)
            if ev is not None:
                self.in_event = True
                try:
                    ev()
                finally:
                    self.in_event = False
                self.fired.append(('event', t.tid, t.op, t.local, site))
        if self.faults and t.tid not in self.quiet:
            kind = self.faults.pop((t.tid, t.op, t.local), None)
            if kind is not None and site in rt.SHIELDED:
                self.faults.setdefault((t.tid, t.op, t.local + 1), kind)
            elif kind is not None:
                self.fired.append((kind, t.tid, t.op, t.local, site))
                raise FAULT_KINDS[kind]('injected at scheduling point %d'
                                        % t.local)
        others = [o for o in self.tasks
                  if o is not t and not o.done and o.waiting is None]
        if not others:
            return
        target = self.strategy.pick(t, site, others)
        if target is not None:
            self.decisions.append(('p', t.tid, t.op, t.local, target.tid))
            self.switch_sites.add(site)
            self.switch(t, target)

    def switch(self, me, target):
        self.switches += 1
        self.cur = target
        target.g.switch()
        if self.aborting:
            raise SimAbort()

    def _choose(self, me, runnable):
        if isinstance(self.strategy, Explicit):
            target = self.strategy.choose(runnable,
                                          (me.tid, me.op, me.local))
        else:
            target = self.strategy.choose(runnable)
        self.decisions.append(('f', me.tid, me.op, me.local, target.tid))
        return target

    def block(self, lock):
        """The running thread cannot go on until ``lock`` is released."""
        t = self.cur
        t.waiting = lock
        runnable = [o for o in self.tasks if not o.done and o.waiting is None]
        if not runnable:
            self.problem = 'deadlock'
            self.abort()
            raise SimAbort()
        self.switch(t, self._choose(t, runnable))

    def abort(self):
        self.aborting = True

    def yield_now(self):
        """Lets some other runnable thread run first."""
        t = self.cur
        others = [o for o in self.tasks
                  if o is not t and not o.done and o.waiting is None]
        self.steps += 1
        if self.steps > self.max_steps:
            self.problem = 'no-progress'
            self.abort()
            raise SimAbort()
        if others:
            s = getattr(self.strategy, 'inner', self.strategy)
            if hasattr(s, 'yielded'):
                s.yielded(t)
            self.switch(t, self._choose(t, others))

    def fork(self):
        """The running thread forks and goes on as the child, in which the
        other threads do not exist; what they held stays held."""
        t = self.cur
        for f in reversed(AT_FORK['before']):
            f()
        _forked[0] += 1
        gone = [o for o in self.tasks if o is not t and not o.done]
        for o in gone:
            o.done = True
            # Kept, so that nothing of it is unwound.
            _vanished.append(o.g)
        for f in AT_FORK['after_in_child']:
            f()
        return gone

    def _body(self, t):
        try:
            t.fn()
        except SimAbort:
            pass
        except BaseException as e:      # harness trouble, reported by run()
            t.exc = e
            self.abort()
        t.done = True
        # Falls back to the hub, which decides who runs next.

    def run(self):
        global CURRENT
        CURRENT = self
        self.hub = greenlet.getcurrent()
        for t in self.tasks:
            t.g = greenlet.greenlet(functools.partial(self._body, t),
                                    self.hub)
        rt.set_hook(self.hook)
        try:
            last = None
            while True:
                rest = [o for o in self.tasks if not o.done]
                if not rest:
                    break
                runnable = [o for o in rest if o.waiting is None]
                if self.aborting:
                    target = rest[0]
                elif not runnable:
                    # Everybody left waits for a lock nobody will release.
                    self.problem = 'deadlock'
                    self.abort()
                    target = rest[0]
                elif last is None:
                    if isinstance(self.strategy, Explicit):
                        target = self.strategy.choose(runnable, (-1, -1, 0))
                    else:
                        target = self.strategy.choose(runnable)
                    self.decisions.append(('f', -1, -1, 0, target.tid))
                else:
                    target = self._choose(last, runnable)
                self.cur = target
                if self.aborting:
                    if target.g:
                        target.g.throw(SimAbort())
                    target.done = True
                else:
                    target.g.switch()
                last = self.cur
            self.cur = None
        finally:
            rt.set_hook(None)
            CURRENT = None
        for t in self.tasks:
            if t.exc is not None:
                raise t.exc
        return self


class FaultPoint(object):
    """Single-threaded fault injection without threads.

    Counts scheduling points of one call and raises at the chosen ones.
    """
    def __init__(self, at=None, kind=None, event=None):
        self.at, self.kind, self.event = at, kind, event
        self.n = 0
        self.fired = None
        self.digest = 0

    def __enter__(self):
        self.g = greenlet.getcurrent()
        rt.set_hook(self.hook)
        return self

    def __exit__(self, *a):
        rt.set_hook(None)

    def hook(self, site):
        if greenlet.getcurrent() is not self.g:
            return
        self.n += 1
        self.digest = zlib.crc32(b'%d' % site, self.digest)
        if self.n == self.at and self.kind is not None and \
                site in rt.SHIELDED:
            self.at += 1
        elif self.n == self.at:
            self.fired = site
            if self.event is not None:
                rt.set_hook(None)
                try:
                    self.event()
                finally:
                    rt.set_hook(self.hook)
            if self.kind is not None:
                raise FAULT_KINDS[self.kind]('injected at point %d' % self.n)


# ------------------------------------------- what threads can see or wait on

def _task():
    """The simulated thread that is running, if any."""
    s = CURRENT
    if s is not None and s.cur is not None and \
            s.cur.g is greenlet.getcurrent():
        return s.cur
    return None


def get_ident():
    t = _task()
    return t.ident if t is not None else _real_get_ident()


class SimLock(object):
    """Stands in for threading.Lock / RLock inside the package under test."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        t = _task()
        me = get_ident()
        if t is not None:
            if s.aborting:
                raise SimAbort()
            s.hook(-1)
            tried = False
            while not self._take(me):
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    # A timed wait gives others a turn, then may run out.
                    if tried:
                        return False
                    tried = True
                    s.yield_now()
                    continue
                s.block(self)
            return True
        if self._take(me):
            return True
        if not blocking or (timeout is not None and timeout >= 0):
            return False
        raise RuntimeError('blocked on a lock outside the simulation')

    def _take(self, me):
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        return False

    def release(self):
        s = CURRENT
        if self._owner is None or (self.reentrant
                                   and self._owner != get_ident()):
            if s is not None and s.aborting:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count:
            return
        self._owner = None
        if s is not None:
            for t in s.tasks:
                if t.waiting is self:
                    t.waiting = None
            if _task() is not None and not s.aborting and \
                    sys.exc_info()[0] is None:
                s.hook(-2)

    acquire_lock, release_lock = acquire, release

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle lock object")


class SimRLock(SimLock):
    reentrant = True

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


class SimLocal(object):
    """Stands in for threading.local."""
    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        object.__setattr__(self, '_sim_args', (a, k))
        object.__setattr__(self, '_sim_dicts', {})
        return self

    def _sim_dict(self):
        d = object.__getattribute__(self, '_sim_dicts')
        me = get_ident()
        if me not in d:
            d[me] = {}
            if type(self).__init__ is not object.__init__:
                a, k = object.__getattribute__(self, '_sim_args')
                type(self).__init__(self, *a, **k)
        return d[me]

    def __getattribute__(self, name):
        if name.startswith('_sim_') or name == '__class__':
            return object.__getattribute__(self, name)
        d = SimLocal._sim_dict(self)
        if name == '__dict__':
            return d
        if name in d:
            return d[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        SimLocal._sim_dict(self)[name] = value

    def __delattr__(self, name):
        try:
            del SimLocal._sim_dict(self)[name]
        except KeyError:
            raise AttributeError(name)

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread._local' object")


def _from_package(depth=2, limit=8):
    f = sys._getframe(depth)
    for _ in range(limit):
        if f is None:
            return False
        if f.f_globals.get('__name__', '').startswith('trading_calendars'):
            return True
        f = f.f_back
    return False


_orig = {}


def patch_threading():
    """Must run before the package is imported."""
    if _orig:
        return
    _orig.update(Lock=threading.Lock, RLock=threading.RLock,
                 allocate=threading._allocate_lock, local=threading.local,
                 sleep=time.sleep, current=threading.current_thread,
                 at_fork=os.register_at_fork, getpid=os.getpid)

    def Lock():
        return SimLock() if _from_package() else _orig['Lock']()

    def RLock(*a, **k):
        return SimRLock() if _from_package() else _orig['RLock'](*a, **k)

    def allocate():
        if _task() is not None or _from_package():
            return SimLock()
        return _orig['allocate']()

    def register_at_fork(**k):
        if not _from_package():
            return _orig['at_fork'](**k)
        for when, f in k.items():
            AT_FORK[when].append(f)

    def getpid():
        return _orig['getpid']() + _forked[0]

    os.register_at_fork = register_at_fork
    os.getpid = getpid

    def sleep(secs):
        if _task() is not None:
            CURRENT.yield_now()
        elif not _from_package():
            _orig['sleep'](secs)

    class FakeThread(object):
        daemon = False

        def __init__(self, t):
            self.ident = self.native_id = t.ident
            self.name = 'Thread-%d' % t.tid

        def getName(self):
            return self.name

        def is_alive(self):
            return True

        def __eq__(self, other):
            return getattr(other, 'ident', None) == self.ident

        def __hash__(self):
            return self.ident

    def current_thread():
        t = _task()
        return FakeThread(t) if t is not None else _orig['current']()

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = allocate
    threading.local = SimLocal
    threading.get_ident = _thread.get_ident = get_ident
    threading.current_thread = threading.currentThread = current_thread
    functools.RLock = RLock
    time.sleep = sleep
