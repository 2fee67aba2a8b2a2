"""Runs a property's simulations over worker processes.

Run number i of a check is a JSON spec that depends only on (VERIF_SEED, tier,
i).  Each run executes in its own forked child, so nothing leaks from one run
into the next.  The first violation (lowest run number) is turned into an
explicit decision list, minimised, confirmed in a fresh process and written to
a replay file.
"""
import gc
import hashlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import rt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 60.0
RETRY_TIMEOUT = 180.0
DIED = 'run process ended'


def rng_for(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Violation(BaseException):
    """Raised by a property's execute() when the property is broken.

    Not an Exception, so that code under test does not swallow it."""
    def __init__(self, kind, detail):
        BaseException.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


def execute_here(prop, spec):
    """Runs one spec in this process.  Never raises."""
    out = {}
    try:
        out = prop.execute(spec) or {}
    except Violation as e:
        out = {'violation': {'kind': e.kind, 'detail': e.detail}}
        out.update(getattr(e, 'extra', {}))
    except BaseException as e:
        text = traceback.format_exc()
        if from_package(text):
            out = {'violation': {
                'kind': 'unexpected-error', 'detail': '%s: %s' % (
                    type(e).__name__, str(e)[:300]), 'traceback': text}}
        else:
            out = {'error': text}
    rt.set_hook(None)
    return out


def from_package(text):
    """Whether a traceback passes through the code under test."""
    return os.path.join(os.environ['VERIF_REPO'], 'trading_calendars') + \
        os.sep in text


def execute_forked(prop, spec, timeout=RUN_TIMEOUT):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if os.environ.get("SIM_DEBUG_HANG"):
                import faulthandler
                faulthandler.dump_traceback_later(
                    float(os.environ["SIM_DEBUG_HANG"]))
            if not getattr(prop, 'KEEP_GC', False):
                gc.disable()
            data = json.dumps(execute_here(prop, spec)).encode()
        except BaseException:
            data = json.dumps({'error': traceback.format_exc()}).encode()
        try:
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        try:
            ready, _, _ = select.select([r], [], [], min(left, 5.0))
        except InterruptedError:
            continue
        if ready:
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'hang': timeout}
    try:
        return json.loads(b''.join(chunks).decode())
    except ValueError:
        return {'error': '%s with status %r and no result' % (DIED, status)}


def execute_isolated(prop, spec):
    res = execute_forked(prop, spec)
    if res.get('error', '').startswith(DIED):
        # Killed from outside, perhaps.
        res = execute_forked(prop, spec)
    if 'hang' in res:
        res = execute_forked(prop, spec, RETRY_TIMEOUT)
        if 'hang' in res:
            res = {'violation': {
                'kind': 'hang',
                'detail': 'the run did not end within %d s' % RETRY_TIMEOUT}}
    return res


# ------------------------------------------------------------------- workers

def _worker(prop, seed, tier, rfd, wfd):
    rf = os.fdopen(rfd, 'r')
    wf = os.fdopen(wfd, 'w')
    warm = getattr(prop, 'worker_warm', None)
    if warm is not None:
        warm()
    for line in rf:
        lo, hi = json.loads(line)
        out = []
        for i in range(lo, hi):
            spec = prop.generate(rng_for(prop.ID, seed, tier, i), i, tier)
            res = execute_isolated(prop, spec)
            if prop.recheck(i) and 'violation' not in res \
                    and 'error' not in res:
                again = execute_isolated(prop, spec)
                res['rerun_same'] = (again.get('digest') == res.get('digest'))
            res.pop('decisions', None)
            out.append((i, res))
            if 'violation' in res or 'error' in res:
                break
        wf.write(json.dumps(out) + '\n')
        wf.flush()
    os._exit(0)


class Cover(object):
    """What a check's runs reached, merged over runs."""
    def __init__(self):
        self.runs = 0
        self.elapsed = 0.0
        self.sums = {}
        self.known = set()
        self.faults = {}
        self.digests = set()
        self.sets = {}
        self.samples = []
        self.reruns = 0
        self.reruns_same = 0

    def add(self, i, res):
        self.runs += 1
        self.known.update(res.get('known', ()))
        for k, v in res.get('sums', {}).items():
            self.sums[k] = self.sums.get(k, 0) + v
        for k, v in res.get('faults', {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        if res.get('nontrivial'):
            self.digests.add(res.get('digest'))
        for k, v in res.get('sets', {}).items():
            self.sets.setdefault(k, set()).update(
                tuple(x) if isinstance(x, list) else x for x in v)
        if 'sample' in res and (len(self.samples) < 3):
            self.samples.append({'run': i, 'case': res['sample']})
        if 'rerun_same' in res:
            self.reruns += 1
            self.reruns_same += bool(res['rerun_same'])


def run_all(prop, seed, tier, nruns, budget_s, nworkers, chunk):
    """Returns (cover, first violation or None, first error or None)."""
    cover = Cover()
    workers = []
    inherited = []
    for w in range(nworkers):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(w1)
                os.close(r2)
                for fd in inherited:
                    os.close(fd)
                _worker(prop, seed, tier, r1, w2)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        inherited.extend([w1, r2])
        workers.append({'pid': pid, 'w': os.fdopen(w1, 'w'), 'r': r2,
                        'buf': b'', 'busy': False})
    start = time.monotonic()
    nxt = 0
    found = []
    errors = []
    stopping = False

    def enough():
        """The time is up, or on a slow machine several times over."""
        t = time.monotonic() - start
        return t > budget_s and (prop.adequate(cover) or
                                 t > max(budget_s, min(5 * budget_s, 450)))

    def feed(wk):
        nonlocal nxt
        if stopping or nxt >= nruns or enough():
            return
        hi = min(nruns, nxt + chunk)
        wk['w'].write(json.dumps([nxt, hi]) + '\n')
        wk['w'].flush()
        nxt = hi
        wk['busy'] = True

    for wk in workers:
        feed(wk)
    while any(wk['busy'] for wk in workers):
        fds = [wk['r'] for wk in workers if wk['busy']]
        ready, _, _ = select.select(fds, [], [], 600)
        if not ready:
            errors.append((-1, 'workers made no progress for 600 s'))
            break
        for wk in workers:
            if wk['r'] not in ready:
                continue
            data = os.read(wk['r'], 1 << 20)
            if not data:
                wk['busy'] = False
                errors.append((-1, 'a worker process died'))
                stopping = True
                continue
            wk['buf'] += data
            while b'\n' in wk['buf']:
                line, wk['buf'] = wk['buf'].split(b'\n', 1)
                wk['busy'] = False
                for i, res in json.loads(line.decode()):
                    if 'error' in res:
                        errors.append((i, res['error']))
                        stopping = True
                    elif 'violation' in res:
                        found.append((i, res['violation']))
                        stopping = True
                    cover.add(i, res)
                feed(wk)
    for wk in workers:
        try:
            wk['w'].close()
        except OSError:
            pass
        if errors:
            try:
                os.kill(wk['pid'], signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(wk['pid'], 0)
        os.close(wk['r'])
    cover.elapsed = time.monotonic() - start
    found.sort(key=lambda x: x[0])
    errors.sort(key=lambda x: x[0])
    return (cover, found[0] if found else None,
            errors[0] if errors else None)


# -------------------------------------------------------------- minimisation

def ddmin_candidates(items):
    """Smaller versions of a list, largest cuts first."""
    n = len(items)
    size = n
    while size >= 1:
        for lo in range(0, n, size):
            cand = items[:lo] + items[lo + size:]
            if len(cand) < n:
                yield cand
        size //= 2


def minimise(prop, spec, kind, budget_s=60.0, max_tries=600):
    """Greedy: keep any smaller spec that breaks the property the same way."""
    start = time.monotonic()
    tries = 0
    improved = True
    while improved:
        improved = False
        for cand in prop.shrink(spec):
            if tries >= max_tries or time.monotonic() - start > budget_s:
                return spec, tries
            tries += 1
            res = execute_forked(prop, cand)
            v = res.get('violation')
            if v and v['kind'] == kind:
                if res.get('decisions') is not None and \
                        'strategy' in cand:
                    cand = dict(cand, strategy=['x', res['decisions']])
                spec = cand
                improved = True
                break
    return spec, tries


def confirm(prop, spec):
    """Turns a violating spec into its explicit form and checks it repeats."""
    for _ in range(4):
        res = execute_isolated(prop, spec)
        v = res.get('violation')
        if v:
            break
    else:
        return None, None
    if 'strategy' in spec and res.get('decisions') is not None:
        explicit = dict(spec, strategy=['x', res['decisions']])
        res2 = execute_isolated(prop, explicit)
        v2 = res2.get('violation')
        if v2 and v2['kind'] == v['kind']:
            return explicit, v2
    return spec, v


def parallel_map(fn, items, nproc=None):
    """[fn(x) for x in items], each in a forked child that ends afterwards.

    Errors in a child are raised here."""
    nproc = nproc or int(os.environ.get('SIM_WORKERS', '8'))
    results = [None] * len(items)
    running = {}
    todo = list(enumerate(items))[::-1]
    while todo or running:
        while todo and len(running) < nproc:
            i, x = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for fd in running:
                        os.close(fd)
                    try:
                        data = {'ok': fn(x)}
                    except BaseException:
                        data = {'error': traceback.format_exc()}
                    view = memoryview(json.dumps(data).encode())
                    while view:
                        view = view[os.write(w, view):]
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (i, pid, [])
        ready, _, _ = select.select(list(running), [], [], 600)
        if not ready:
            raise RuntimeError('a helper process made no progress for 600 s')
        for fd in ready:
            data = os.read(fd, 1 << 20)
            i, pid, chunks = running[fd]
            if data:
                chunks.append(data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                res = json.loads(b''.join(chunks).decode())
            except ValueError:
                res = {'error': 'helper process died'}
            if 'error' in res:
                raise RuntimeError(res['error'])
            results[i] = res['ok']
    return results
