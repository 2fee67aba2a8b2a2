"""C12: importing the package survives any failure of version control."""
import errno
import io
import os
import subprocess
import sys
import tempfile
import zlib

from .. import instrument, runner

ID = 'C12'
LEVEL = 'fault_enumeration'
INSTRUMENT = False
PLAN = {'quick': (9000, 60), 'thorough': (300000, 600)}
CHUNK = 20
RULE = ('A run imports the version module (one run in ten the whole package) '
        'while every started process is simulated: each invocation of the '
        'version-control tool fails to start, exits with a status, is killed '
        'or prints proper, empty, truncated, undecodable or random output, '
        'as seeded. The first runs enumerate every single failure of every '
        'invocation. Non-trivial: at least one invocation did not answer '
        'properly. Distinct: by the sequence of outcomes.')
REAL = ['trading_calendars._version and, in one run of ten, the whole '
        'package (working tree)']
STUBS = ['processes started through the subprocess module']
ASSUMPTIONS = ['The version-control tool is started through the subprocess '
               'module, and ends.']
BEFORE = os.getcwd(), dict(os.environ)
STARTS = ['ENOENT', 'EACCES', 'ENOMEM', 'EAGAIN', 'ENOTDIR', 'ENOEXEC']
BAD = [['start', s] for s in STARTS] + \
    [['exit', n] for n in (1, 2, 127, 128, 255, -9, -11, -15)] + \
    [['out', o] for o in ('', '20', '0a', 'ff', 'fffe00', '2d', '2d6469727479',
                          '30', '2d31', '61626331', '20312032', 'e2988331',
                          '312e302d312d67', '2d2d2d', '78' * 5000,
                          '0a0a310a320a', 'c2b2', '0031')] + \
    [['late', n] for n in (1, 128, -9)]
TAGS = [None, None, '1.2.3', '0.1', 'v2-rc', '1.0+local', '2.0rc1', 'x' * 60]


def warm():
    import trading_calendars  # noqa
    # How many invocations there are when all goes well.
    try:
        out = execute({'answers': {}, 'tag': None, 'distance': 7,
                       'dirty': False, 'full': False, 'hex': 'a1b2c3d'})
    except runner.Violation:
        return
    CALLS[0] = max(1, out['sums']['invocations'])


CALLS = [4]


def recheck(i):
    return i % 97 == 7


def adequate(cover):
    # A package that asks nobody for its version cannot be disturbed.
    return len(cover.digests) > 20 or \
        cover.sums.get('invocations', 0) == 0


def generate(rng, i, tier):
    base = {'tag': rng.choice(TAGS), 'distance': rng.choice([0, 1, 7, 4321]),
            'dirty': rng.random() < 0.4, 'full': rng.random() < 0.1,
            'hex': '%07x' % rng.randrange(16 ** 7)}
    n = CALLS[0]
    singles = n * len(BAD) * 2
    if i < singles:
        base['tag'] = None if i % 2 else '1.2.3'
        base['answers'] = {str(i // 2 // len(BAD)): BAD[i // 2 % len(BAD)]}
        return base
    ans = {}
    for k in range(n + 1):
        r = rng.random()
        if r < 0.35:
            ans[str(k)] = rng.choice(BAD)
        elif r < 0.5:
            ans[str(k)] = ['out', bytes(rng.choice(
                [rng.randrange(256), 10, 32, 45, 48, 49, 103])
                for _ in range(rng.choice([0, 1, 2, 5, 40]))).hex()]
        elif r < 0.6:
            ans[str(k)] = ['cut', rng.randrange(12)]
    base['answers'] = ans
    return base


class World(object):
    def __init__(self, spec):
        self.spec = spec
        self.calls = []
        self.unknown = False

    def proper(self, argv):
        """What a working git would print, or None."""
        s = self.spec
        full = (s['hex'] * 6)[:40]
        a = [os.fsdecode(x) for x in argv]
        if os.path.basename(a[0]).split('.')[0] != 'git':
            return None
        a = a[1:]
        if a[:2] == ['rev-parse', '--git-dir']:
            return '.git\n'
        if a[:1] == ['rev-parse'] and a[-1] == 'HEAD':
            return full + '\n'
        if a[:1] == ['describe']:
            d = '-dirty' if s['dirty'] and any(
                x.startswith('--dirty') for x in a) else ''
            if s['tag'] is None:
                return full[:7] + d + '\n'
            return '%s-%d-g%s%s\n' % (s['tag'], s['distance'], full[:7], d)
        if a[:1] == ['rev-list']:
            return '%d\n' % s['distance']
        if a[:1] in (['show'], ['log']):
            return '2020-09-01 12:34:56 +0200\n'
        return None

    def answer(self, argv):
        k = len(self.calls)
        act = self.spec['answers'].get(str(k))
        text = self.proper(argv)
        if text is None:
            self.unknown = True
            act = ['exit', 128]
        self.calls.append(act)
        data = (text or '').encode()
        if act is None:
            return 0, data
        if act[0] == 'start':
            n = getattr(errno, act[1])
            raise OSError(n, os.strerror(n), argv[0])
        if act[0] == 'exit':
            return act[1], b''
        if act[0] == 'late':
            return act[1], data
        if act[0] == 'cut':
            return 0, data[:act[1]]
        return 0, bytes.fromhex(act[1])


def popen_class(world):
    class Popen(object):
        """Stands in for subprocess.Popen."""

        def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                     stdout=None, stderr=None, *a, **k):
            if isinstance(args, (str, bytes)):
                args = os.fsdecode(args).split()
            self.args = args
            rc, out = world.answer(list(args))
            self.text = k.get('text') or k.get('universal_newlines') or \
                k.get('encoding') or k.get('errors')
            self.enc = k.get('encoding') or 'utf-8'
            self.errors = k.get('errors') or 'strict'
            self.pid = 4242
            self.returncode = None
            self._rc = rc
            self.stdin = self.stdout = self.stderr = None
            if stdout == subprocess.PIPE:
                self.stdout = self._stream(out)
            elif stdout is None:
                os.write(1, out)
            elif hasattr(stdout, 'fileno'):
                os.write(stdout.fileno(), out)
            if stderr == subprocess.PIPE:
                self.stderr = self._stream(b'fatal: simulated\n')
            if stdin == subprocess.PIPE:
                self.stdin = io.BytesIO()

        def _stream(self, data):
            b = io.BytesIO(data)
            if self.text:
                return io.TextIOWrapper(b, self.enc, self.errors)
            return b

        def communicate(self, input=None, timeout=None):
            out = self.stdout.read() if self.stdout else None
            err = self.stderr.read() if self.stderr else None
            self.wait()
            return out, err

        def wait(self, timeout=None):
            self.returncode = self._rc
            return self._rc

        poll = wait

        def kill(self):
            pass

        terminate = kill

        def send_signal(self, s):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    return Popen


def expected(spec):
    """TAG[+DISTANCE.gHEX[.dirty]] or 0+untagged.DISTANCE.gHEX[.dirty]"""
    short = (spec['hex'] * 6)[:7]
    if spec['tag'] is None:
        v = '0+untagged.%d.g%s' % (spec['distance'], short)
        return v + ('.dirty' if spec['dirty'] else '')
    v = spec['tag']
    if spec['distance'] or spec['dirty']:
        v += '.' if '+' in v else '+'
        v += '%d.g%s' % (spec['distance'], short)
        if spec['dirty']:
            v += '.dirty'
    return v


def execute(spec):
    out = {'sums': {}, 'sets': {}, 'faults': {}}
    world = World(spec)
    real = subprocess.Popen
    # As before anything of the package was imported.
    cwd, env = BEFORE
    os.chdir(cwd)
    os.environ.clear()
    os.environ.update(env)
    with tempfile.TemporaryFile() as cap:
        sys.stdout.flush()
        saved = os.dup(1)
        os.dup2(cap.fileno(), 1)
        subprocess.Popen = popen_class(world)
        error = None
        try:
            if spec['full']:
                instrument.purge()
                import trading_calendars
                version = trading_calendars.__version__
            else:
                sys.modules.pop('trading_calendars._version', None)
                try:
                    from trading_calendars._version import get_versions
                except ImportError:
                    # Computed elsewhere: import it all.
                    instrument.purge()
                    import trading_calendars
                    version = trading_calendars.__version__
                else:
                    version = get_versions()['version']
        except Exception as e:
            error = '%s: %s' % (type(e).__name__, e)
        finally:
            subprocess.Popen = real
            sys.stdout.flush()
            os.dup2(saved, 1)
            os.close(saved)
        cap.seek(0)
        printed = cap.read()
    what = 'with answers %s' % world.calls
    if error:
        raise runner.Violation('import-failed', '%s: %s' % (what, error[:300]))
    if not isinstance(version, str) or not version.strip():
        raise runner.Violation('no-version', '%s: %r' % (what, version))
    if printed:
        raise runner.Violation('printed', '%s: %r' % (what, printed[:200]))
    if os.getcwd() != cwd or dict(os.environ) != env:
        raise runner.Violation('process-state', '%s: directory or environment '
                               'changed' % what)
    bad = [c for c in world.calls if c is not None]
    if not bad and world.calls and not world.unknown and \
            len(world.calls) >= 3 and version != expected(spec):
        raise runner.Violation('wrong-version', '%r instead of %r' % (
            version, expected(spec)))
    for c in bad:
        k = {'start': 'tool cannot be started', 'exit': 'tool fails',
             'late': 'tool fails after its output', 'cut': 'truncated output',
             'out': 'garbage output'}[c[0]]
        out['faults'][k] = out['faults'].get(k, 0) + 1
    out['sums']['invocations'] = len(world.calls)
    out['sums']['whole_package_imports'] = int(spec['full'])
    out['nontrivial'] = bool(bad)
    out['digest'] = zlib.crc32(repr(world.calls).encode())
    out['sample'] = spec
    return out


def shrink(spec):
    for k in sorted(spec['answers']):
        a = dict(spec['answers'])
        del a[k]
        yield dict(spec, answers=a)
    for k, v in (('full', False), ('tag', None), ('dirty', False),
                 ('distance', 0)):
        if spec[k] != v:
            yield dict(spec, **{k: v})
