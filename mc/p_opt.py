"""The optimizers' side: the dialogue with the manager (P16), the shipped CMA optimizer (P32) and the random search (P36).
The real optimizers run as threads or processes of a World; a driver plays the manager through the real pipe, flag and
queue with every short program of signals."""
import math
import multiprocessing
import queue as Q
import threading

import numpy as np

from . import kernel
from . import opts as O
from .opts import emit
from .p_sel import Draws
from .seq import SeqUnit, Stop, same

import cma
from glompo.core.manager import GloMPOManager
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult
from glompo.optimizers.cmawrapper import CMAOptimizer
from glompo.optimizers.random import RandomOptimizer

NAN, INF = float('nan'), float('inf')
ID = 7


class Clocked:
    """ Every evaluation takes a second; concurrent ones are counted. """

    def __init__(self, vals=None, dt=1.0):
        self.vals, self.dt, self.n = vals, dt, 0

    def __call__(self, x):
        w = kernel.WORLD
        x = [float(i) for i in x]
        emit('eval', x, w.now)
        if self.dt:
            w.sleep(self.dt)
        self.n += 1
        if self.vals is None:
            v = sum((i - 0.3) ** 2 for i in x)
        else:
            v = self.vals[(self.n - 1) % len(self.vals)]
        emit('value', x, v, w.now)
        return v


class Watched:
    """ Makes visible what an optimizer is made to do. """

    def check_messages(self):
        emit('check')
        r = super().check_messages()
        emit('checked')
        return r

    def callstop(self, *a, **k):
        emit('act', 'stop', a)
        return super().callstop(*a, **k)

    def inject(self, x, fx):
        emit('act', 'inj', [float(i) for i in x], fx)
        return super().inject(x, fx)

    def checkpoint_save(self, path, force=None):
        emit('act', 'save', str(path))
        return super().checkpoint_save(path, force)

    def minimize(self, *a, **k):
        r = super().minimize(*a, **k)
        emit('end', dict(self.incumbent), r)
        return r


class Plain(BaseOptimizer):
    """ The template of the documentation. """

    def __init__(self, *a, iters=3, ends='message', **k):
        super().__init__(*a, **k)
        self.iters, self.done, self.stop, self.ends = iters, 0, False, ends

    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        while self.done < self.iters and not self.stop:
            self.done += 1
            function(np.array([0.1 * self.done]))
            self.check_messages()
            self._pause_signal.wait()
        if self.ends == 'message':
            self.message_manager(0, 'done')
        return MinimizeResult()

    def callstop(self, reason=None):
        self.stop = True


class WPlain(Watched, Plain):
    pass


class WRandom(Watched, RandomOptimizer):
    pass


class WCMA(Watched, CMAOptimizer):
    pass


KINDS = {
    'plain': (WPlain, dict(iters=3), {}),
    'random': (WRandom, dict(iters=3), {}),
    'cma': (WCMA, dict(popsize=2, maxiter=2, verbose=False, seed=7), dict(sigma0=0.2)),
    'cma2': (WCMA, dict(popsize=3, maxiter=2, verbose=False, workers=2, seed=7), dict(sigma0=0.2)),
}
X0 = {'cma': [0.4, 0.6], 'cma2': [0.4, 0.6]}
BND = {1: [(0.0, 1.0)], 2: [(0.0, 1.0), (0.0, 1.0)]}


class Session:
    def __init__(self, ctx, kind, be, task=None, opt=None, **init):
        cls, kw, call = KINDS[kind]
        self.ctx, self.w, self.kind, self.cls = ctx, ctx.w, kind, cls
        self.x0 = X0.get(kind, [0.5])
        self.bounds = BND[len(self.x0)]
        m = self.m = GloMPOManager()
        self.q = m.optimizer_queue
        self.parent, child = multiprocessing.Pipe()
        self.flag = m._mp_manager.Event()
        self.flag.set()
        self.task = task or Clocked()
        args = dict(_opt_id=ID, _signal_pipe=child, _results_queue=self.q, _pause_flag=self.flag,
                    workers=kw.get('workers', 1), backend='threads')
        if opt is None:
            opt = cls(**{**args, **kw, **init})
        else:
            opt = cls.checkpoint_load(opt, **args)
        self.opt = opt
        target = dict(target=opt._minimize, args=(self.task, self.x0, self.bounds, None), kwargs=call, name=f'Opt{ID}')
        self.t = multiprocessing.Process(**target) if be == 'processes' else threading.Thread(**target)
        self.msgs, self.sent = [], []
        self.n_sent = 0

    def send(self, what, msg):
        self.n_sent += 1
        try:
            self.parent.send(msg)
            emit('sent', self.n_sent, what)
            self.sent.append(what)
        except ConnectionError:
            pass

    def collect(self, timeout=0):
        while self.parent.poll(timeout):
            try:
                self.msgs.append(self.parent.recv())
                emit('got', self.msgs[-1])
            except (EOFError, ConnectionError):
                return
            if self.msgs[-1][0] == 1:
                return True

    def dialogue(self, op):
        """ One operation of the manager. """
        w, ctx = self.w, self.ctx
        if op == 'inj':
            k = len([s for s in self.sent if s[0] == 'inj'])
            x, fx = [0.25 + 0.125 * k] * len(self.x0), -1.0 - k
            self.send(('inj', x, fx), (4, x, fx))
        elif op == 'stop':
            self.send(('stop', ()), 1)
        elif op == 'crash':
            self.send(('stop', ('GloMPO Crash',)), (1, 'GloMPO Crash'))
        elif op == 'junk':
            self.send(('junk',), ctx.pick((99, 'text', (77, 1), None), 'junk'))
        elif op == 'hold':
            self.flag.clear()
            emit('hold', self.batch)
            w.sleep(3.2)
            emit('release')
            self.flag.set()
        elif op in ('save', 'pass', 'savewith', 'abort'):
            self.send(('prep',), 2)
            if op == 'abort':
                self.send(('pass',), 3)
                emit('hold?')
            else:
                preps = len([q for q in self.sent if q[0] == 'prep'])
                while self.t.is_alive() and len([q for q in self.msgs if q[0] == 1]) < preps:
                    self.collect(0.1)
                emit('hold', 0)
                if op == 'savewith':
                    self.dialogue('inj')
                    w.sleep(ctx.pick((0, 0.5), 'then'))
                if op == 'pass':
                    self.send(('pass',), 3)
                else:
                    p = f'{ctx.dir}/state{len(self.sent)}'
                    self.paths.append(p)
                    self.send(('save', p), (0, p))
                    emit('save?', p)
            while self.t.is_alive() and self.flag.is_set():
                w.sleep(0.05)
            w.sleep(ctx.pick((0, 2.3), 'held'))
            emit('release')
            self.flag.set()
        emit('op done')

    paths = ()

    def run(self, ops, delays):
        self.paths = []
        self.t.start()
        for op in ops:
            d = self.ctx.pick(delays, 'after')
            if d:
                self.w.sleep(d)
            if not self.t.is_alive():
                break
            self.dialogue(op)
        while self.t.is_alive():
            self.drain()
            self.t.join(1.0)
        self.drain()
        while self.collect():
            pass
        self.ctx.note([e[:2] for e in self.w.log])

    items = None

    def drain(self):
        if self.items is None:
            self.items = []
        while True:
            try:
                self.items += self.q.get(block=False)
            except Q.Empty:
                if not self.t.is_alive() and self.q.has_cache():
                    self.q.flush()
                    continue
                return

    def judge(self):
        """ What the optimizer did against what it was sent. """
        ctx, log = self.ctx, self.w.log
        for t in self.w.tasks[1:]:
            if t.exc is not None:
                ctx.fail('exception', f'{t.name} raised {t.exc!r}')
        acts = [e[1:] for e in log if e[0] == 'act']
        acts = [(a[0], tuple(a[1])) if a[0] == 'stop' else a for a in acts]
        want = [s for s in self.sent if s[0] in ('inj', 'stop', 'save')]
        k = len(acts)
        ctx.eq([list(a) for a in acts], [list(a) for a in want[:k]], 'acts', 'what the optimizer did')
        # everything sent before it looked for messages was obeyed
        last = max([n for n, e in enumerate(log) if e[0] == 'check'] or [-1])
        pos = {e[1]: n for n, e in enumerate(log) if e[0] == 'sent'}
        due = [s for n, s in zip(sorted(pos), self.sent) if pos[n] < last and s[0] in ('inj', 'stop', 'save')]
        ctx.true(k >= len(due), 'ignored', f'the optimizer was sent {self.sent} and did {acts}')
        preps = len([1 for n, s in zip(sorted(pos), self.sent) if s[0] == 'prep' and pos[n] < last])
        total = len([1 for s in self.sent if s[0] == 'prep'])
        replies = [m for m in self.msgs if m[0] == 1]
        ctx.true(preps <= len(replies) <= total, 'replies', f'{len(replies)} replies to {total} requests to pause')
        junk = len([1 for n, s in zip(sorted(pos), self.sent) if s[0] == 'junk' and pos[n] < last])
        got = len([1 for t in ctx.warnings if 'parse' in t])
        ctx.true(got >= junk, 'junk', f'{junk} unknown messages, {got} warnings')
        # it rests only after it has done what it was told to
        asked, ended = None, False
        for e in log:
            ended = ended or e[0] == 'end'
            if e[0] == 'save?':
                asked = None if ended else e[1]
            elif e[0] == 'act' and e[1] == 'save' and e[2] == asked:
                asked = None
            elif e[0] in ('release', 'end') and asked:
                ctx.true(e[0] == 'end', 'unsaved', f'the optimizer rested before it had stored itself in {asked}')
                asked = None
        # held optimizers do nothing new
        held, n_new = False, 0
        for e in log:
            if e[0] == 'hold':
                held, n_new, lim = True, 0, e[1]
            elif e[0] == 'release':
                held = False
            elif e[0] == 'eval' and held:
                n_new += 1
                ctx.true(n_new <= lim, 'held', f'{n_new} evaluations while the optimizer was held')
        # after a stop
        n = next((n for n, e in enumerate(log) if e[0] == 'act' and e[1] == 'stop'), None)
        if n is not None:
            after = len([1 for e in log[n:] if e[0] == 'eval'])
            ctx.true(after <= self.after_stop, 'after-stop', f'{after} evaluations begun after the stop')
        last = [e for e in log if e[0] == 'act' and e[1] == 'inj']
        end = [e for e in log if e[0] == 'end']
        if ctx.true(len(end) == 1, 'no-end', f'the optimizer did not end properly: {self.w.tasks[1:]}'):
            if last:
                ctx.eq([list(end[0][1]['x']), end[0][1]['fx']], [last[-1][2], last[-1][3]], 'incumbent', 'solution taken in')
        # its record
        done = [e for e in log if e[0] == 'value']
        if ctx.true(bool(self.items) and type(self.items[-1]) is int and self.items[-1] == ID, 'end-marker',
                    f'last item on the queue: {self.items[-1:]}'):
            got = [([float(i) for i in r.x], r.fx) for r in self.items[:-1]]
            if self.in_flight == 1:
                ctx.eq(got, [(e[1], e[2]) for e in done], 'record', 'evaluations handed on')
            else:
                ctx.eq(sorted(got), sorted((e[1], e[2]) for e in done), 'record', 'evaluations handed on')
        zero = [m for m in self.msgs if m[0] == 0]
        ctx.true(len(zero) == 1, 'goodbye', f'{len(zero)} closing messages: {self.msgs}')

    after_stop = 0      # evaluations which may begin after a stop
    in_flight = 1       # how many there may be at a time
    batch = 1           # evaluations made between two looks at the flag


def signals(kind, be, depth, alphabet, delays, resume=True):
    def fn(ctx):
        ops = []
        for i in range(depth):
            op = ctx.pick(alphabet + ('end',), f'{i}')
            if op == 'end':
                break
            ops.append(op)
        s = Session(ctx, kind, be)
        s.batch = {'cma': 2, 'cma2': 3}.get(kind, 1)
        if kind == 'cma2':
            s.in_flight = s.after_stop = 3
        s.run(ops, delays)
        s.judge()
        ctx.see(repr([e[:2] for e in ctx.w.log]))
        evs = [n for n, e in enumerate(ctx.w.log) if e[0] == 'eval']
        if resume and not ctx.viol:
            for p in s.paths:
                n = next((n for n, e in enumerate(ctx.w.log) if e[0] == 'act' and e[1] == 'save' and e[2] == p), None)
                if n is None:
                    continue
                again(ctx, s, p, n)
    return fn


def again(ctx, s, path, n):
    """ The state which was stored, continued. """
    log = list(ctx.w.log)
    before = [e for e in log[:n] if e[0] == 'value']
    stopped = any(e[0] == 'act' and e[1] == 'stop' for e in log[:n])
    inj = [e for e in log[:n] if e[0] == 'act' and e[1] == 'inj']
    del ctx.w.log[:]
    del ctx.w.log.times[:]
    r = Session(ctx, s.kind, 'threads', opt=path)
    ctx.true(r.opt.is_restart is True, 'restart', 'the restored optimizer does not know that it is one')
    ctx.eq(r.opt.opt_id, ID, 'restart', 'number of the restored optimizer')
    if inj:
        ctx.eq([list(r.opt.incumbent['x']), r.opt.incumbent['fx']], [inj[-1][2], inj[-1][3]], 'restart', 'shared solution')
    r.run([], (0,))
    evs = [e for e in ctx.w.log if e[0] == 'eval']
    if s.kind in ('plain', 'random'):
        ctx.eq(len(evs), 0 if stopped else 3 - len(before), 'restart', 'evaluations after the restart')
    if s.kind in ('cma', 'cma2'):
        total = 4 if s.kind == 'cma' else 6
        ctx.eq(len(evs), 0 if stopped else total - len(before), 'restart', 'evaluations after the restart')
    if s.kind == 'random' and not stopped:
        end = [e for e in ctx.w.log if e[0] == 'end'][0][2]
        allv = before + [e for e in ctx.w.log if e[0] == 'value']
        best = min(allv, key=lambda e: e[2])
        ctx.eq([list(end.x), end.fx], [best[1], best[2]], 'restart-result', 'result of the continued search')
    zero = [m for m in r.msgs if m[0] == 0]
    ctx.true(len(zero) == 1, 'goodbye', f'{len(zero)} closing messages after the restart: {r.msgs}')
    ctx.w.log[:] = log
    ctx.w.log.times[:] = [0] * len(log)


OPS = ('inj', 'stop', 'crash', 'save', 'pass', 'savewith', 'abort', 'hold', 'junk')


def p16(tier):
    deep = tier == 'thorough'
    us = []
    for be in ('threads', 'processes'):
        us += [
            SeqUnit(f'plain-{be}', signals('plain', be, 2 if not deep else 3, OPS, (0, 0.5, 1.0, 1.5)), dict(s=0)),
            SeqUnit(f'races-{be}', signals('plain', be, 2, ('inj', 'stop', 'save', 'pass', 'abort', 'hold'), (0, 1.0)),
                    dict(s=1 if not deep else 2)),
            SeqUnit(f'random-{be}', signals('random', be, 2, ('inj', 'stop', 'save', 'pass', 'hold'), (0, 1.0)),
                    dict(s=0 if not deep else 1)),
        ]
    return us


# ---------------------------------------------------------------------------------------------------------------- P36
def alone(max_iters, vals, dims):
    """ The search on its own: every extreme draw, any values, stopped by a callback or from within the function. """
    def fn(ctx):
        n = ctx.pick(range(max_iters + 1), 'iters')
        b = ctx.pick(dims, 'bounds')
        how = ctx.pick(('runs', 'callback', 'callstop'), 'end')
        at = ctx.pick(range(1, n + 1), 'at') if n and how != 'runs' else None
        opt = RandomOptimizer(iters=n)
        seen = []

        def f(x):
            v = ctx.pick(vals, 'value')
            seen.append(([float(i) for i in x], v))
            if how == 'callstop' and len(seen) == at:
                opt.callstop('enough')
            return v

        with Draws(ctx):
            r = opt.minimize(f, [0.0] * len(b), b, (lambda: len(seen) == at) if how == 'callback' else None)
        ctx.eq(len(seen), at or n, 'budget', 'number of evaluations')
        for x, _ in seen:
            ctx.true(len(x) == len(b) and all(lo <= i <= hi for i, (lo, hi) in zip(x, b)), 'bounds', f'{x} outside {b}')
        best = INF
        for x, v in seen:
            if v < best:
                best = v
        if how == 'runs':
            ctx.eq(bool(r.success), True, 'result', 'success reported')
        ctx.eq(r.fx, best, 'result', f'value returned for {seen}')
        if best < INF:
            ctx.true(any(same(list(map(float, r.x)), x) and v == best for x, v in seen), 'result',
                     f'point returned {r.x} for {seen}')
        ctx.note(best, len(seen))
    return fn


def p36(tier):
    deep = tier == 'thorough'
    one, two = [[(0, 1)], [(-5.0, -4.0)]], [[(0.0, 1.0), (-3, 1e6)]]
    return [
        SeqUnit('alone', alone(3 if not deep else 4, (2.0, NAN, -1.0), one)),
        SeqUnit('values', alone(2 if not deep else 3, (2.0, NAN, -1.0, INF, -INF, 0, -0.0), one[:1])),
        SeqUnit('two', alone(2, (2.0, 1.0), two)),
        SeqUnit('managed', signals('random', 'threads', 2, ('stop', 'crash', 'save', 'pass', 'hold', 'inj'), (0, 1.0)),
                dict(s=0 if not deep else 1)),
        SeqUnit('managed-processes', signals('random', 'processes', 2, ('stop', 'save', 'pass'), (0, 0.5, 1.0)),
                dict(s=0 if not deep else 1)),
        SeqUnit('races', signals('random', 'processes', 1, ('stop', 'save', 'pass', 'hold'), (0, 1.0, 2.0)),
                dict(s=1 if not deep else 2)),
    ]


# ---------------------------------------------------------------------------------------------------------------- P32
def _timed():
    return kernel.WORLD.data['timed']


class Timed(Clocked):
    """ How long an evaluation takes is a choice: every order of completion occurs. """

    def __init__(self, ctx, times):
        super().__init__()
        self.ctx, self.times = ctx, times

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        kernel.WORLD.data['timed'] = self
        return _timed, ()

    def __call__(self, x):
        w = kernel.WORLD
        x = [float(i) for i in x]
        emit('eval', x, w.now)
        w.sleep(self.ctx.pick(self.times, 'takes'))
        v = sum((i - 0.3) ** 2 for i in x)
        emit('value', x, v, w.now)
        return v


class Spy:
    """ What the strategy asks for and what it is told. """

    def __enter__(self):
        cls = self.cls = cma.CMAEvolutionStrategy
        self.saved = cls.ask, cls.tell
        spy = self
        spy.depth = 0

        def ask(es, *a, **k):
            spy.depth += 1
            r = spy.saved[0](es, *a, **k)
            spy.depth -= 1
            if not spy.depth:
                emit('ask', [[float(i) for i in x] for x in r])
            return r

        def tell(es, x, fx, *a, **k):
            emit('tell', [[float(i) for i in q] for q in x], [float(v) for v in fx])
            spy.depth += 1
            r = spy.saved[1](es, x, fx, *a, **k)
            spy.depth -= 1
            return r
        cls.ask, cls.tell = ask, tell
        return self

    def __exit__(self, *a):
        self.cls.ask, self.cls.tell = self.saved


def generations(shapes, be, times, ops=(), delays=(0,), backends=('threads', 'processes'), gens=2):
    def fn(ctx):
        workers, pop = ctx.pick(shapes, 'workers, popsize')
        pool = ctx.pick(backends, 'pool')
        todo = []
        if ops:
            todo = [ctx.pick(ops, 'op')]
        task = Timed(ctx, times)
        with Spy():
            s = Session(ctx, 'cma', be, task=task, popsize=pop, workers=workers, maxiter=gens, backend=pool)
            s.batch = s.in_flight = s.after_stop = pop
            s.run(todo, delays)
        s.judge()
        log = ctx.w.log
        asked, told, stop = [], 0, False
        best = INF
        cur, busy, peak = None, 0, 0
        for e in log:
            if e[0] == 'act' and e[1] == 'stop':
                stop = True
            elif e[0] == 'ask':
                ctx.true(not stop, 'ask-after-stop', 'a new generation was begun after the stop')
                ctx.true(cur is None, 'untold', 'a new generation was begun before the last one was evaluated')
                cur = [list(x) for x in e[1]]
                left = [list(x) for x in cur]
            elif e[0] == 'eval':
                if e[1] in left:
                    left.remove(e[1])
                else:
                    ctx.fail('points', f'{e[1]} was evaluated (again?) in generation {cur}')
                busy += 1
                peak = max(peak, busy)
                ctx.true(busy <= workers, 'workers', f'{busy} evaluations at a time on {workers} workers')
            elif e[0] == 'value':
                busy -= 1
            elif e[0] == 'tell':
                told += 1
                ctx.eq(e[1], cur, 'told-points', 'points told')
                ctx.true(not left, 'unevaluated', f'{left} were not evaluated')
                for x, v in zip(e[1], e[2]):
                    ctx.true(v == sum((i - 0.3) ** 2 for i in x), 'told-value', f'{x} was given the value {v}')
                    best = min(best, v)
                cur = None
        ctx.eq(busy, 0, 'abandoned', 'evaluations still running at the end')
        if not stop:
            ctx.eq(told, gens, 'generations', 'number of generations')
            ctx.true(cur is None, 'untold', 'the last generation was not used')
            ctx.eq(peak, min(workers, pop), 'workers', 'evaluations at a time')
        end = [e for e in log if e[0] == 'end']
        if end and told:
            ctx.eq(float(end[0][2].fx), best, 'result', 'value returned')
        ctx.see(repr([e[:2] for e in log]))
    return fn


def p32(tier):
    deep = tier == 'thorough'
    return [
        SeqUnit('orders', generations(((1, 2), (2, 2), (2, 3), (3, 3)), 'threads', (1.0, 2.5), backends=('threads',)),
                dict(s=0)),
        SeqUnit('orders-processes', generations(((2, 2), (2, 3), (3, 2)), 'processes', (1.0, 2.5)), dict(s=0)),
        SeqUnit('schedules', generations(((2, 2), (2, 3)), 'threads', (1.0,), gens=1), dict(s=1 if not deep else 2)),
        SeqUnit('stops', generations(((1, 2), (2, 2), (2, 3)), 'threads', (1.0, 1.5), ('stop', 'crash', 'inj'),
                                     (0, 0.5, 1.2, 2.2), backends=('threads',)), dict(s=0)),
        SeqUnit('stop-schedules', generations(((2, 3),), 'threads', (1.0,), ('stop',), (0.5, 1.0, 2.0)),
                dict(s=1 if not deep else 2)),
        SeqUnit('dialogue', signals('cma', 'threads', 2, ('stop', 'inj', 'save', 'pass', 'hold'), (0, 1.0, 2.5)), dict(s=0)),
        SeqUnit('dialogue-parallel', signals('cma2', 'threads', 2, ('stop', 'inj', 'save', 'pass'), (0, 0.5)),
                dict(s=0)),
        SeqUnit('dialogue-races', signals('cma2', 'threads', 1, ('stop', 'save', 'pass', 'abort'), (0, 1.0)),
                dict(s=1 if not deep else 2)),
    ]


PROPS = {
    'P16': dict(units=p16),
    'P32': dict(units=p32),
    'P36': dict(units=p36),
}
