"""Controlled scheduler: runs real Python code, whose threads, processes, locks, pipes, manager proxies and clock have
been replaced by virtual ones, as greenlets under a scheduler which owns every interleaving, timeout and fault choice.

One `World` is one execution.  It is fully determined by `prefix`, the list of choices taken at its choice points; every
choice point after the prefix takes option 0.  The trace of an execution lists, for each choice point, how many options
there were and what each costs, which is what `explore.py` needs to enumerate all executions within a cost bound.
"""
import sys

import greenlet

_getcurrent = greenlet.getcurrent

WORLD = None  # the execution in progress


class Divergence(BaseException):
    """ Replay did not reproduce the recorded execution: a harness error, never a verdict. """


class StopWorld(BaseException):
    """ Raised in the hub to end an execution early (violation such as a deadlock already noted). """


class Task:
    __slots__ = ('name', 'g', 'done', 'label', 'enabled', 'deadline', 'fn', 'exc', 'exitcode', 'kind', 'killed',
                 'in_server', 'inject', 'ident', 'pid', 'run', 'yielded', 'reason', 'tag', 'stdio', 'opcount', 'opt_id',
                 'obj', 'depth')

    def __init__(self, name, fn, kind):
        self.name, self.fn, self.kind = name, fn, kind
        self.done = False
        self.label = 'start'
        self.enabled = None
        self.deadline = None
        self.exc = None
        self.exitcode = None
        self.killed = False
        self.in_server = 0
        self.inject = None
        self.ident = None
        self.pid = None
        self.run = 0
        self.yielded = False
        self.reason = None
        self.tag = None
        self.stdio = None
        self.opcount = 0
        self.opt_id = None
        self.obj = None
        self.depth = 0

    def alive(self):
        return not self.done and not self.killed


class Log(list):
    """ Observations with the virtual time at which they were made. """

    def __init__(self, world):
        super().__init__()
        self.world = world
        self.times = []

    def append(self, e):
        super().append(e)
        self.times.append(self.world.now)


class World:
    RUN_LIMIT = 40

    def __init__(self, prefix=(), fine=False, horizon=20000, eof=False, timeouts=True, faults=()):
        self.prefix = list(prefix)
        self.fine = fine            # scheduling points on every lock operation
        self.horizon = horizon
        self.eof = eof              # pipes of a dead child report end-of-file / broken pipe
        self.opt_timeouts = timeouts  # may a timeout fire although somebody else could run?
        self.faults = tuple(faults)  # fault kinds offered as choices
        self.fault_filter = None
        self.now = 1_600_000_000.0
        self.tasks = []
        self.current = None
        self.hub = None
        self.trace = []             # (n_options, chosen, costs, label)
        self.steps = 0
        self.problems = []          # (kind, text) found by the kernel itself
        self.log = Log(self)        # free-form observation log of the scenario
        self.idents = set()
        self.next_pid = 100
        self.states = set()
        self.keep = []
        self.last_yield = None
        self.data = {}              # scenario scratch area
        self.frozen = False
        self.hook = None            # called before every scheduling decision

    # ---- choices -------------------------------------------------------------------------------------------------
    def choose(self, costs, label):
        """ One choice point with len(costs) options; returns the option taken. costs are (kind) strings:
        '' free, 's' a scheduling deviation, 'f' a fault. """
        n = len(costs)
        if n <= 1:
            return 0
        i = len(self.trace)
        pick = 0
        if i < len(self.prefix):
            pick = self.prefix[i]
            if pick >= n:
                raise Divergence(f"choice {i} ({label}): option {pick} of {n}")
        self.trace.append((n, pick, costs, label))
        return pick

    def choose_value(self, n, label):
        """ Environment non-determinism (no cost): all values are explored. """
        return self.choose(('',) * n, label)

    # ---- scheduling points ---------------------------------------------------------------------------------------
    def point(self, label, enabled=None, timeout=None):
        """ Called by a task before a visible operation. Blocks until `enabled()`; returns False on timeout. """
        t = self.current
        if t is None:
            return True
        t.label = label
        t.enabled = enabled
        t.deadline = None if timeout is None else self.now + timeout
        t.opcount += 1
        self.hub.switch()
        t.enabled = None
        t.deadline = None
        if t.inject is not None and not t.in_server:
            exc, t.inject = t.inject, None
            raise exc
        r = t.reason
        t.reason = None
        return r != 'timeout'

    def spin(self):
        """ The current task just saw 'no progress': let the others go first at the next point. """
        if self.current is not None:
            self.current.yielded = True

    def sleep(self, dt):
        self.point('sleep', _never, max(dt, 1e-6))

    # ---- tasks ---------------------------------------------------------------------------------------------------
    def spawn(self, name, fn, kind):
        t = Task(name, fn, kind)
        k = 1000
        while k in self.idents:
            k += 1
        if kind == 'process':
            t.pid = self.next_pid
            self.next_pid += 1
            t.stdio = [sys.stdout, sys.stderr]
            t.ident = 1
        else:
            self.idents.add(k)
            t.ident = k
            t.pid = self.current.pid if self.current else 1
        self.tasks.append(t)
        t.g = greenlet.greenlet(self._body(t), self.hub)
        return t

    def _body(self, t):
        def body(*_):
            try:
                t.fn()
                if t.exitcode is None:
                    t.exitcode = 0
            except greenlet.GreenletExit:
                raise
            except (Divergence, StopWorld):
                raise
            except SystemExit as e:
                t.exitcode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:
                t.exc = e
                if t.exitcode is None:
                    t.exitcode = 1
            t.done = True
            self.log.append(('dead', t.name))
            if t.kind != 'process':
                self.idents.discard(t.ident)
        return body

    def kill(self, t, code):
        """ SIGTERM / SIGKILL: the task never runs again, except to let a server-side call it made run to its end. """
        if t.done or t.killed:
            return
        t.killed = True
        t.exitcode = code
        self.log.append(('dead', t.name))

    # ---- main loop -----------------------------------------------------------------------------------------------
    def run(self, main):
        global WORLD
        assert WORLD is None
        WORLD = self
        self.hub = _getcurrent()
        saved = sys.stdout, sys.stderr
        try:
            t = self.spawn('main', main, 'thread')
            t.pid = 1
            self._loop(t)
        except StopWorld:
            pass
        finally:
            self.current = None
            self.frozen = True
            WORLD = None
            sys.stdout, sys.stderr = saved
        return self

    def _runnable(self, t):
        if t.done:
            return False
        if t.killed and not t.in_server:
            return False
        if t.inject is not None and not t.in_server and t.label != 'start':
            return True
        if t.enabled is None:
            return True
        return bool(t.enabled())

    def _loop(self, main):
        last = main
        while not main.done:
            self.steps += 1
            if self.steps > self.horizon:
                self.problems.append(('livelock', f'no termination within {self.horizon} steps; '
                                      + self.describe()))
                raise StopWorld
            if self.hook is not None:
                self.hook(self)
            tasks = self.tasks
            n = len(tasks)
            li = tasks.index(last)
            order = tasks[li + 1:] + tasks[:li]
            ready = [t for t in order if self._runnable(t)]
            lr = self._runnable(last)
            if lr:
                if (last.yielded or last.run >= self.RUN_LIMIT) and ready:
                    ready.append(last)
                else:
                    ready.insert(0, last)
            waiting = [t for t in tasks if not t.done and not t.killed and t.deadline is not None and t not in ready]
            if not ready:
                if not waiting:
                    self.problems.append(('deadlock', self.describe()))
                    raise StopWorld
                nxt = min(waiting, key=lambda t: t.deadline)
                self.now = max(self.now, nxt.deadline)
                nxt.reason = 'timeout'
                last = self._switch(nxt, last)
                continue
            if waiting and last.yielded and last.run >= self.RUN_LIMIT and ready == [last]:
                # busy waiting takes time too
                nxt = min(waiting, key=lambda t: t.deadline)
                self.now = max(self.now, nxt.deadline)
                nxt.reason = 'timeout'
                last = self._switch(nxt, last)
                continue
            opts = [(t, 'run') for t in ready]
            costs = [''] + ['s'] * (len(ready) - 1)
            if self.opt_timeouts:
                for t in waiting:
                    if t.label != 'sleep':
                        opts.append((t, 'timeout'))
                        costs.append('s')
            if self.faults:
                for f in self.faults:
                    for t in tasks:
                        if t.alive() and self.fault_filter(self, f, t):
                            opts.append((t, f))
                            costs.append('f')
            if len(opts) > 1:
                self.states.add(hash(tuple((t.label, t.done, t.killed, t.opcount) for t in tasks)))
                k = self.choose(tuple(costs), last.name + ':' + last.label)
                t, how = opts[k]
            else:
                t, how = opts[0]
            if how == 'run':
                last = self._switch(t, last)
            elif how == 'timeout':
                self.now = max(self.now, t.deadline)
                t.reason = 'timeout'
                last = self._switch(t, last)
            else:
                self.data.setdefault('faults', []).append((how, t.name, t.label, self.steps))
                self.do_fault(how, t)

    def do_fault(self, how, t):
        if how == 'kill':
            self.kill(t, -9)
        elif how == 'interrupt':  # Ctrl-C: delivered to the whole foreground process group
            t.inject = KeyboardInterrupt()
            for o in self.tasks:
                if o is not t and o.kind == 'process' and o.alive():
                    o.inject = KeyboardInterrupt()
        elif how == 'intmain':  # SIGINT to the main process only
            t.inject = KeyboardInterrupt()
        else:
            raise Divergence(how)

    def _switch(self, t, last):
        if t is last:
            t.run += 1
        else:
            t.run = 0
        t.yielded = False
        self.current = t
        if t.stdio is not None:
            save = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = t.stdio
            t.g.switch()
            t.stdio[:] = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = save
        else:
            t.g.switch()
        self.current = None
        return t

    def describe(self):
        return '; '.join(f"{t.name}@{t.label}" + ('' if t.enabled is None else ' (blocked)')
                         for t in self.tasks if t.alive())

    def tick(self):
        self.now += 1e-6
        return self.now


def _never():
    return False


def cur():
    return WORLD.current if WORLD is not None else None


def lenient_point(label, enabled=None, timeout=None):
    w = WORLD
    if w is None or w.current is None:
        return True
    return w.point(label, enabled, timeout)
