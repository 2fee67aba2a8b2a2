"""C03: registry operations are all-or-nothing."""
from .. import model, runner, sched, rt
from . import reg

ID = 'C03'
LEVEL = 'fault_enumeration'
PLAN = {'quick': (12000, 60), 'thorough': (500000, 800)}
CHUNK = 25
RULE = ('A run executes 2-14 registry operations over 4 names against a '
        'registry with a random initial content, with constructors that '
        'succeed, fail, fail once or use the registry themselves; errors are '
        'injected at scheduling points of some operations. Enumerated runs '
        'abort one operation at every one of its scheduling points, each time '
        'from the same fresh registry, and then read everything back. '
        'Non-trivial: an injected error fired or an operation was refused. '
        'Distinct: by digest of code sites and results.')
REAL = ['trading_calendars.calendar_utils and errors (working tree)']
STUBS = ['calendar objects (token subclasses of TradingCalendar)',
         'calendar constructors (scripted)', 'wall clock', 'locks']
ASSUMPTIONS = ['Errors strike between the reads, writes and calls of the '
               'package\'s own functions.']
KINDS = sorted(sched.FAULT_KINDS)
READBACK = [['names']] + [['resolve', n] for n in reg.NAMES] + \
    [['get', n] for n in reg.NAMES] + [['get', n] for n in reg.NAMES]


def warm():
    import trading_calendars  # noqa
    import trading_calendars.errors  # noqa


def recheck(i):
    return i % 200 == 7


def adequate(cover):
    return sum(cover.faults.values()) > 1000


def generate(rng, i, tier):
    use_global = rng.random() < 0.5
    if i % 50 == 10:
        init, ops, names = reg.gen_large(rng, not use_global)
        ops += [['get', n] for n in names]
        return {'mode': 'seq', 'global': use_global, 'init': init, 'ops': [
            [n, op, [rng.randint(1, 12), rng.choice(KINDS)]
             if rng.random() < 0.02 else None] for n, op in enumerate(ops)]}
    init = reg.gen_init(rng)
    if i % 3 == 0:
        pre = [reg.gen_op(rng, not use_global)
               for _ in range(rng.randint(0, 3))]
        while True:
            op = reg.gen_op(rng, not use_global)
            if op[0] not in ('names', 'has', 'resolve') or \
                    rng.random() < 0.2:
                break
        return {'mode': 'enum', 'global': use_global, 'init': init,
                'pre': pre, 'op': op, 'kind': rng.choice(KINDS)}
    ops = []
    faulty = rng.choice([0, 0.15, 0.4])
    for n in range(rng.randint(2, 14)):
        fault = None
        if rng.random() < faulty:
            fault = [rng.randint(1, rng.choice([4, 12, 40])),
                     rng.choice(KINDS)]
        ops.append([n, reg.gen_op(rng, not use_global), fault])
    return {'mode': 'seq', 'global': use_global, 'init': init, 'ops': ops}


def start_state(init):
    return model.RegState(
        {n: ('obj', v) for n, v in init['cals'].items()},
        init['facts'], init['als'])


class Track(object):
    def __init__(self, spec, out):
        self.world = reg.World(spec['global'], spec['init'])
        self.states = {start_state(spec['init'])}
        self.out = out
        self.log = []
        self.world.nested = self.nested

    def nested(self, op):
        # A constructor uses the registry: one more operation, within.
        try:
            obs = self.world.do(op)
        except sched.INJECTED:
            self.abort(op)
            raise
        self.apply(op, obs)

    def apply(self, op, obs):
        new = set()
        for st in self.states:
            new.update(model.reg_apply(st, op, tup(obs), reg.may_fail))
        self.log.append([op, obs])
        if not new:
            raise runner.Violation(
                'wrong-result', '%s gave %s; history %s; the registry should '
                'be %s' % (op, obs, self.log[-6:-1],
                           [s.key() for s in list(self.states)[:2]]))
        self.states = new

    def abort(self, op):
        new = set()
        for st in self.states:
            new.update(model.reg_aborted(st, op))
        self.log.append([op, 'aborted'])
        self.states = new

    def step(self, op, fault):
        out = self.out
        fp = sched.FaultPoint(fault[0] if fault else None,
                              fault[1] if fault else None)
        obs = None
        try:
            with fp:
                obs = self.world.do(op)
        except sched.INJECTED:
            pass
        out['digest'] = (out['digest'] * 31 + fp.digest
                         + hash_obs(obs)) & 0xffffffff
        out['sums']['operations'] = out['sums'].get('operations', 0) + 1
        out['sums']['scheduling_points'] = \
            out['sums'].get('scheduling_points', 0) + fp.n
        if fp.fired is not None:
            out['faults'][fault[1]] = out['faults'].get(fault[1], 0) + 1
            out['sets'].setdefault('fault_sites', []).append(fp.fired)
            out['nontrivial'] = True
            # Aborted, or the error was absorbed: then the result counts as
            # an abort too if it is not a possible result.
            if obs is None:
                self.abort(op)
                return fp
            before = self.states
            try:
                self.apply(op, obs)
            except runner.Violation:
                self.states = before
                self.abort(op)
            return fp
        if obs and obs[0] == 'err':
            out['nontrivial'] = True
            out['sums']['refused'] = out['sums'].get('refused', 0) + 1
        self.apply(op, obs)
        return fp


def hash_obs(obs):
    import zlib
    return zlib.crc32(repr(obs).encode())


def tup(obs):
    if obs[0] == 'cal':
        return ['cal', tuple(obs[1])]
    return obs


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}, 'digest': 0,
           'nontrivial': False}
    if spec['mode'] == 'enum':
        k = 1
        while k < 300:
            t = Track(spec, out)
            for op in spec['pre']:
                t.step(op, None)
            fp = t.step(spec['op'], [k, spec['kind']])
            for op in READBACK:
                t.step(op, None)
            if fp.fired is None:
                break
            k += 1
        out['sums']['enumerated_points'] = k - 1
    else:
        t = Track(spec, out)
        for n, op, fault in spec['ops']:
            t.step(op, fault)
        for op in READBACK:
            t.step(op, None)
    out['sample'] = spec
    return out


def shrink(spec):
    if spec['mode'] == 'seq':
        for c in runner.ddmin_candidates(spec['ops']):
            yield dict(spec, ops=c)
        for i, o in enumerate(spec['ops']):
            if o[2]:
                yield dict(spec, ops=spec['ops'][:i] + [o[:2] + [None]]
                           + spec['ops'][i + 1:])
    else:
        for c in runner.ddmin_candidates(spec['pre']):
            yield dict(spec, pre=c)
    for part in ('cals', 'facts', 'als'):
        for n in sorted(spec['init'][part]):
            init = {k: dict(v) for k, v in spec['init'].items()}
            del init[part][n]
            yield dict(spec, init=init)
