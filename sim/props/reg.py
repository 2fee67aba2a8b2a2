"""The registry under simulation: tokens, constructors, operations."""
from .. import rt, sched

NAMES = ['A', 'B', 'C', 'D']
# fid -> (scheduling points inside the constructor, failures, nested op)
#   failures: 'never' | 'always' | 'first'
FACTORIES = {
    'f0': (0, 'never', None),
    'f1': (1, 'never', None),
    'f2': (6, 'never', None),
    'f3': (2, 'always', None),
    'f4': (3, 'first', None),
    'n1': (2, 'never', ['get', 'D']),
    'n2': (1, 'never', ['names']),
    'n3': (1, 'never', ['regtype', 'D', 'f1', True]),
}


def may_fail(fid):
    return FACTORIES[fid][1] != 'never'


class BuildError(Exception):
    pass


class World(object):
    """One registry, its tokens and constructors."""

    def __init__(self, use_global, init):
        import trading_calendars as tc
        from trading_calendars import calendar_utils as cu
        self.tc = tc
        self.serial = 0
        self.objs = {}
        self.tokens = {}
        self.types = {}
        self.nesting = set()
        self.nested = None          # callback(op) for re-entrant constructors
        self.base = self._base(tc.TradingCalendar)
        self.keep = []
        if use_global:
            tc.clear_calendars()
            self.api = {
                'get': tc.get_calendar, 'names': tc.get_calendar_names,
                'resolve': tc.resolve_alias, 'reg': tc.register_calendar,
                'regtype': tc.register_calendar_type,
                'alias': tc.register_calendar_alias,
                'dereg': tc.deregister_calendar,
                'clear': tc.clear_calendars,
            }
            self.has = None
            for n, v in sorted(init['cals'].items()):
                tc.register_calendar(n, self.obj(v))
            for n, v in sorted(init['facts'].items()):
                tc.register_calendar_type(n, self.factory(v))
            for n, v in sorted(init['als'].items()):
                tc.register_calendar_alias(n, v)
        else:
            d = cu.TradingCalendarDispatcher(
                calendars={n: self.obj(v) for n, v in init['cals'].items()},
                calendar_factories={n: self.factory(v)
                                    for n, v in init['facts'].items()},
                aliases=dict(init['als']))
            self.api = {
                'get': d.get_calendar, 'names': d.get_calendar_names,
                'resolve': d.resolve_alias, 'reg': d.register_calendar,
                'regtype': d.register_calendar_type,
                'alias': d.register_calendar_alias,
                'dereg': d.deregister_calendar, 'clear': d.clear_calendars,
            }
            self.has = d.has_calendar

    @staticmethod
    def _base(TradingCalendar):
        class Token(TradingCalendar):
            name = tz = open_times = close_times = None

            def __init__(self):
                pass
        return Token

    def obj(self, cid):
        if cid not in self.objs:
            self.objs[cid] = o = self.base()
            self.tokens[id(o)] = ('obj', cid)
            self.keep.append(o)
        return self.objs[cid]

    def factory(self, fid):
        if fid in self.types:
            return self.types[fid]
        world = self
        points, fails, nested = FACTORIES[fid]
        count = [0]

        def init(self):
            count[0] += 1
            mine = count[0]
            for k in range(points):
                rt.y(-100 - k)
            me = sched.get_ident()
            if nested is not None and world.nested is not None \
                    and me not in world.nesting:
                # once per thread, or D -> this -> D would never end
                world.nesting.add(me)
                try:
                    world.nested(nested)
                finally:
                    world.nesting.discard(me)
            rt.y(-99)
            if fails == 'always' or (fails == 'first' and mine == 1):
                raise BuildError(fid)
            world.serial += 1
            world.tokens[id(self)] = ('made', fid, world.serial)
            world.keep.append(self)

        self.types[fid] = t = type('T_' + fid, (self.base,),
                                   {'__init__': init})
        return t

    def do(self, op):
        """Runs one operation; returns its canonical result."""
        kind = op[0]
        try:
            if kind == 'get':
                cal = self.api['get'](op[1])
                tok = self.tokens.get(id(cal))
                return ['cal', tok if tok is not None
                        else ('unknown', type(cal).__name__)]
            if kind == 'names':
                return ['names', sorted(self.api['names']())]
            if kind == 'has':
                return ['val', bool(self.has(op[1]))]
            if kind == 'resolve':
                return ['val', self.api['resolve'](op[1])]
            if kind == 'reg':
                r = self.api['reg'](op[1], self.obj(op[2]), force=op[3])
            elif kind == 'regtype':
                r = self.api['regtype'](op[1], self.factory(op[2]),
                                        force=op[3])
            elif kind == 'alias':
                r = self.api['alias'](op[1], op[2], force=op[3])
            elif kind == 'dereg':
                self.api['dereg'](op[1])
                r = None
            elif kind == 'clear':
                self.api['clear']()
                r = None
            else:
                raise KeyError(kind)
            return ['val', None]
        except sched.INJECTED:
            raise
        except BuildError:
            return ['err', 'BuildError']
        except Exception as e:
            return ['err', type(e).__name__]


def gen_init(rng, rich=True):
    init = {'cals': {}, 'facts': {}, 'als': {}}
    for n in NAMES:
        r = rng.random()
        if r < 0.2:
            init['cals'][n] = 'i' + n
        elif r < 0.55:
            init['facts'][n] = rng.choice(sorted(FACTORIES))
        elif r < 0.75:
            t = rng.choice([x for x in NAMES if x > n] or ['Z'])
            init['als'][n] = t
    fix_nested(init)
    return init


def fix_nested(init):
    # A nested constructor asks for D; D must not be one of them.
    if init['facts'].get('D', 'f')[0] == 'n':
        init['facts']['D'] = 'f1'


def gen_large(rng, can_has):
    """Many names, long chains of aliases, most operations fetches."""
    names = ['N%03d' % k for k in range(rng.choice([12, 40, 150]))]
    init = {'cals': {}, 'facts': {}, 'als': {}}
    plain = ['f0', 'f1']
    share = rng.choice([0.1, 0.5, 0.9])
    for k, n in enumerate(names):
        r = rng.random()
        if r < share and k + 1 < len(names):
            init['als'][n] = rng.choice(names[k + 1:k + 3])
        elif r > 0.97:
            init['cals'][n] = 'i' + n
        else:
            init['facts'][n] = rng.choice(plain)
    ops = []
    for _ in range(rng.choice([60, 250])):
        if rng.random() < 0.85:
            ops.append(['get', rng.choice(names)])
        else:
            op = gen_op(rng, can_has, names)
            if op[0] == 'clear' and rng.random() < 0.8:
                op = ['names']
            ops.append(op)
    return init, ops, names


def gen_op(rng, can_has, names=NAMES):
    r = rng.random()
    n = rng.choice(names)
    force = rng.random() < 0.55
    if r < 0.36:
        return ['get', n]
    if r < 0.42:
        return ['names']
    if r < 0.46:
        return ['has', n] if can_has else ['resolve', n]
    if r < 0.51:
        return ['resolve', n]
    if r < 0.61:
        return ['reg', n, 'o%d' % rng.randrange(100), force]
    if r < 0.76:
        f = rng.choice(sorted(FACTORIES))
        if f[0] == 'n' and n == 'D':
            f = 'f2'
        return ['regtype', n, f, force]
    if r < 0.88:
        return ['alias', n, rng.choice(names + ['Z']), force]
    if r < 0.97:
        return ['dereg', n]
    return ['clear']
