"""Exhaustive enumeration of executions within a cost bound, spread over forked workers.

A work item is (unit, prefix).  Running it yields a trace; every alternative option after the prefix whose cost fits the
unit's budget becomes a new work item.  Every execution within the budget is therefore run exactly once.  Items are
ordered by cost (fewest deviations first), so when a time limit cuts the search what is left out is the deepest layer.
"""
import heapq
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import kernel

_time = real_time = time.time
_mono, _cpu = time.monotonic, time.process_time  # real clock: this module is imported before virt.install()


class Outcome:
    """ What one execution reports. """
    __slots__ = ('trace', 'violations', 'steps', 'states', 'sample', 'stats')

    def __init__(self, trace=(), violations=(), steps=0, states=(), sample=None, stats=None):
        self.trace, self.violations, self.steps = trace, list(violations), steps
        self.states, self.sample, self.stats = states, sample, stats or {}


def used_cost(trace, upto):
    c = {}
    for n, pick, costs, _ in trace[:upto]:
        k = costs[pick]
        if k:
            c[k] = c.get(k, 0) + 1
    return c


def expand(prefix, out, budget):
    """ New prefixes reachable from this execution. """
    res = []
    lp = len(prefix)
    cost = used_cost(out.trace, lp)
    base = sum(cost.values())
    picks = [p for _, p, _, _ in out.trace]
    for i in range(lp, len(out.trace)):
        n, pick, costs, _ = out.trace[i]
        for alt in range(1, n):
            k = costs[alt]
            if k and cost.get(k, 0) + 1 > budget.get(k, 0):
                continue
            res.append((base + (1 if k else 0), tuple(picks[:i]) + (alt,)))
    return res


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack('<Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def rd(n):
        buf = b''
        while len(buf) < n:
            c = os.read(fd, n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return buf
    n, = struct.unpack('<Q', rd(8))
    return pickle.loads(rd(n))


class Hang(BaseException):
    """ An execution got stuck between two scheduling points. """


HANG_S = 60     # of the worker's own time, or four times as long on the clock: a busy machine is no hang
_hung = []
_began = [0.0, 0.0]


def _on_alarm(*_):
    if _hung or _cpu() - _began[0] > 0.7 * HANG_S or _mono() - _began[1] > 4 * HANG_S:
        _hung.append(1)
        raise Hang


MEM = 3 << 30
NOTE = 1 << 16


def _noted(note):
    """ What the worker which owned this page was running when it died. """
    n, = struct.unpack('<Q', note[:8])
    return pickle.loads(note[8:8 + n]) if n else None


def _alone(unit, prefix):
    """ Repeat one execution in a process of its own: does that process die, too? """
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_DATA, (MEM, MEM))
            signal.alarm(5 * HANG_S)
            unit.run(prefix)
            os._exit(0)
        finally:
            os._exit(1)
    return os.waitpid(pid, 0)[1] != 0


def _worker(units, rfd, wfd, slice_s, note):
    signal.signal(signal.SIGALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_DATA, (MEM, MEM))
    while True:
        try:
            msg = _recv(rfd)
        except EOFError:
            os._exit(0)
        if msg is None:
            os._exit(0)
        todo = [(c, u, p) for c, u, p in msg]
        heapq.heapify(todo)
        t0 = _time()
        res = dict(done=[], new=[], viol=[], states=set(), samples=[], err=None, stats={})
        while todo and _time() - t0 < slice_s:
            c, u, p = heapq.heappop(todo)
            unit = units[u]
            del _hung[:]
            b = pickle.dumps((u, p), 2)
            if len(b) < NOTE - 8:
                note[:8 + len(b)] = struct.pack('<Q', len(b)) + b
            else:
                note[:8] = struct.pack('<Q', 0)
            _began[:] = _cpu(), _mono()
            signal.setitimer(signal.ITIMER_REAL, HANG_S, 10)
            try:
                out = unit.run(p)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except BaseException as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
                if isinstance(e, kernel.Divergence):  # harness error: no verdict
                    res['err'] = (u, p, tb)
                    break
                # what the code under test produced cannot even be interpreted
                out = Outcome((), [] if _hung else [('uninterpretable', tb[-1500:])])
            if _hung:
                out.violations = [('hang', f'no progress for {HANG_S} s between two scheduling points')]
            res['done'].append((u, c, out.steps))
            st = res['stats'].setdefault(u, {})
            for k, v in out.stats.items():
                if isinstance(v, set):
                    st.setdefault(k, set()).update(v)
                else:
                    st[k] = st.get(k, 0) + v
            res['states'].update((u, s) for s in out.states)
            if out.sample is not None and len(res['samples']) < 2:
                res['samples'].append((u, p, out.sample))
            for v in out.violations:
                res['viol'].append((u, p, v))
            for cc, np_ in expand(p, out, unit.budget):
                heapq.heappush(todo, (cc, u, np_))
        res['new'] = todo
        _send(wfd, res)


class Stats:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.by_cost = {}
        self.by_unit = {}
        self.violations = []
        self.samples = []
        self.errors = []
        self.left = 0
        self.wall = 0
        self.unit_stats = {}


def explore(units, jobs=8, limit_s=600, stop_on_violation=True, slice_s=0.4, is_new=None, batch=None):
    """ Run every execution of every unit. Each unit has .run(prefix) -> Outcome, .budget, .name. """
    stats = Stats()
    t0 = _time()
    workers = []
    for _ in range(jobs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        note = mmap.mmap(-1, NOTE)
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in workers:
                os.close(w['w'])
                os.close(w['r'])
            try:
                _worker(units, r1, w2, slice_s, note)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        workers.append(dict(pid=pid, w=w1, r=r2, busy=False, note=note))
    frontier = [(0, i, ()) for i in range(len(units))]
    heapq.heapify(frontier)
    stop = False
    try:
        while True:
            idle = [w for w in workers if not w['busy']]
            nbusy = len(workers) - len(idle)
            if not stop and _time() - t0 > limit_s:
                stop = True
            if frontier and not stop:
                for w in idle:
                    if not frontier:
                        break
                    n = batch or max(1, min(200, len(frontier) // (2 * len(workers))))
                    items = [heapq.heappop(frontier) for _ in range(min(n, len(frontier)))]
                    _send(w['w'], items)
                    w['busy'] = True
                    nbusy += 1
            if nbusy == 0:
                break
            rd, _, _ = select.select([w['r'] for w in workers if w['busy']], [], [], 5)
            for w in workers:
                if w['r'] in rd:
                    try:
                        res = _recv(w['r'])
                    except EOFError:
                        w['busy'] = False
                        last = _noted(w['note'])
                        if last and _alone(units[last[0]], last[1]):
                            v = (last[0], last[1], ('hang', f'used more than {MEM >> 20} MB between two scheduling '
                                                            f'points'))
                            if is_new is None or is_new(v):
                                stats.violations.append(v)
                        else:
                            stats.errors.append((None, None, 'worker died'))
                        stop = True
                        continue
                    w['busy'] = False
                    for u, c, steps in res['done']:
                        stats.executions += 1
                        stats.transitions += steps
                        stats.by_cost[c] = stats.by_cost.get(c, 0) + 1
                        stats.by_unit[u] = stats.by_unit.get(u, 0) + 1
                    for u, d in res['stats'].items():
                        st = stats.unit_stats.setdefault(u, {})
                        for k, v in d.items():
                            if isinstance(v, set):
                                st.setdefault(k, set()).update(v)
                            else:
                                st[k] = st.get(k, 0) + v
                    stats.states |= res['states']
                    if len(stats.samples) < 12:
                        stats.samples += res['samples']
                    for v in res['viol']:
                        if is_new is None or is_new(v):
                            stats.violations.append(v)
                    if res['err']:
                        stats.errors.append(res['err'])
                        stop = True
                    if stats.violations and stop_on_violation:
                        stop = True
                    for it in res['new']:
                        heapq.heappush(frontier, it)
    finally:
        for w in workers:
            try:
                _send(w['w'], None)
            except OSError:
                pass
            os.close(w['w'])
            os.close(w['r'])
        for w in workers:
            os.waitpid(w['pid'], 0)
    stats.left = len(frontier)
    stats.wall = _time() - t0
    return stats
