"""Wrappers of external optimizers (P38). The libraries are not installed: stand-ins with the documented interface of
nevergrad, optsam and scipy.optimize take their place; what the wrappers make of it is judged."""
import sys
import time
import types
import warnings
from collections import deque
from functools import partial

import numpy as np

from . import kernel
from . import p_opt as PO
from .opts import emit
from .seq import SeqUnit, same

INF = float('inf')


# ---- nevergrad ------------------------------------------------------------------------------------------------------
class NgArray:
    """ nevergrad.p.Array """

    def __init__(self, init=None):
        self.value = np.array(init, dtype=float)
        self.bounds = None

    def set_bounds(self, lower=None, upper=None):
        self.bounds = [float(i) for i in lower], [float(i) for i in upper]
        return self

    @property
    def args(self):
        return self.value,

    kwargs = {}


class DelayedJob:
    def __init__(self, func, *args, **kwargs):
        self.func, self.args, self.kwargs, self.value = func, args, kwargs, []

    def done(self):
        return True

    def result(self):
        if not self.value:
            self.value.append(self.func(*self.args, **self.kwargs))
        return self.value[0]


class SequentialExecutor:
    def submit(self, fn, *args, **kwargs):
        return DelayedJob(fn, *args, **kwargs)


class NgOptimizer:
    """ Looks at 0.05, 0.15, 0.25 of the way through the bounds, again and again. """

    def __init__(self, parametrization, budget=None, num_workers=1, extra=None):
        self.parametrization, self.budget, self.num_workers, self.extra = parametrization, budget, num_workers, extra
        self._num_ask = self._num_tell = self._turn = 0
        self._callbacks = {}
        self.best = None
        self._running_jobs, self._finished_jobs = [], deque()

    num_ask = property(lambda s: s._num_ask)
    num_tell = property(lambda s: s._num_tell)

    def __getstate__(self):
        return dict(self.__dict__, _running_jobs=[], _finished_jobs=deque())

    def register_callback(self, name, callback):
        self._callbacks.setdefault(name, []).append(callback)

    def ask(self):
        lo, hi = self.parametrization.bounds
        f = (0.05, 0.15, 0.25)[self._turn % 3]
        self._num_ask += 1
        self._turn += 1
        c = NgArray([a + f * (b - a) for a, b in zip(lo, hi)])
        emit('ask', [float(i) for i in c.value])
        return c

    def tell(self, x, fx):
        emit('tell', [float(i) for i in x.value], fx)
        for cb in self._callbacks.get('tell', []):
            cb(self, x, fx)
        if self.best is None or fx < self.best[1]:
            self.best = x, fx
        self._num_tell += 1

    def minimize(self, objective_function, executor=None, batch_mode=False, verbosity=0):
        if executor is None:
            executor = SequentialExecutor()
        remaining, first = self.budget - self.num_ask, True
        while remaining > 0 or self._running_jobs or self._finished_jobs:
            if self._finished_jobs:
                while self._finished_jobs:
                    x, job = self._finished_jobs[0]
                    self.tell(x, job.result())
                    self._finished_jobs.popleft()
            elif not first:
                time.sleep(0.05)
            if not batch_mode or not self._running_jobs:
                for _ in range(int(max(0, min(remaining, self.num_workers - len(self._running_jobs))))):
                    c = self.ask()
                    self._running_jobs.append((c, executor.submit(objective_function, *c.args, **c.kwargs)))
            if remaining > 0:
                remaining = self.budget - self.num_ask
            running, finished = [], deque()
            for xj in self._running_jobs:
                (finished if xj[1].done() else running).append(xj)
            self._running_jobs, self._finished_jobs = running, finished
            first = False
        return self.best[0] if self.best else self.parametrization


class NgFamily:
    def __init__(self, serial=False):
        self.no_parallelization = serial

    def __call__(self, **kwargs):
        return NgOptimizer(**kwargs)


# ---- optsam ---------------------------------------------------------------------------------------------------------
class Hook:
    def before_start(self, algo):
        self.note('before', algo, None)

    def after_tell(self, algo, stopcond):
        return self.note('tell', algo, stopcond)

    def after_stop(self, algo, stopcond):
        self.note('stop', algo, stopcond)

    def note(self, when, algo, stopcond):
        emit('hook', type(self).__name__, when, None if stopcond is None else str(stopcond), algo.told)


class Logger(Hook):
    pass


class Reporter(Hook):
    pass


class Enough(Hook):
    """ Three are enough. """

    def __init__(self, n=3):
        self.n = n

    def after_tell(self, algo, stopcond):
        super().after_tell(algo, stopcond)
        return 'enough' if algo.told >= self.n else None


def _one(x):
    return x, False


class GFLS:
    def __init__(self, x0, bounds=None, **kwargs):
        self.x0, self.bounds, self.kwargs = x0, bounds, kwargs
        self.state = {'ncall': 0}
        self.asked = self.told = 0

    def ask(self):
        x = [a + (0.1 + 0.2 * (self.asked % 4)) * (b - a) for a, b in self.bounds]
        self.asked += 1
        emit('ask', [float(i) for i in x])
        return partial(_one, np.array(x))

    def tell(self, x, is_constrained, resids):
        emit('tell', [float(i) for i in x], [float(i) for i in resids])
        self.told += 1
        w = kernel.WORLD
        if w is not None and w.data.get('ponder'):  # a library which takes its time over what it is told
            w.sleep(w.data['ponder'])


# ---- scipy.optimize ---------------------------------------------------------------------------------------------------
def _search(name, func, starts, callback, took):
    best = None
    for x in starts:
        x = np.array(x, dtype=float)
        v = func(x)
        if best is None or v < best[1]:
            best = x, v
        r = callback(x) if callback else None
        emit('callback', r)
    emit('scipy', name, took)
    return types.SimpleNamespace(x=best[0], fun=best[1], success=True)


def _pts(bounds, n=3):
    return [[a + (0.1 + 0.15 * k) * (b - a) for a, b in bounds] for k in range(n)]


def _near(x0):
    return [[i + d for i in x0] for d in (0.0, 0.125, -0.0625)]


def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
             callback=None, options=None):
    return _search('minimize', fun, _near(x0), callback, dict(x0=x0, method=method, bounds=bounds, options=options))


def basinhopping(func, x0, niter=100, T=1.0, stepsize=0.5, minimizer_kwargs=None, take_step=None, accept_test=None,
                 callback=None, interval=50, disp=False, niter_success=None, seed=None):
    r = _search('basinhopping', func, _near(x0), callback, dict(x0=x0, niter=niter))
    return types.SimpleNamespace(x=r.x, fun=r.fun, lowest_optimization_result=r)


def differential_evolution(func, bounds, args=(), strategy='best1bin', maxiter=1000, popsize=15, tol=0.01,
                           mutation=(0.5, 1), recombination=0.7, seed=None, callback=None, disp=False, polish=True,
                           init='latinhypercube', atol=0, updating='immediate', workers=1, constraints=(), x0=None):
    return _search('differential_evolution', func, _pts(bounds), callback, dict(bounds=bounds, x0=x0, maxiter=maxiter))


def shgo(func, bounds, args=(), constraints=None, n=None, iters=1, callback=None, minimizer_kwargs=None, options=None,
         sampling_method='simplicial'):
    return _search('shgo', func, _pts(bounds), callback, dict(bounds=bounds, iters=iters))


def dual_annealing(func, bounds, args=(), maxiter=1000, local_search_options=None, initial_temp=5230.0,
                   restart_temp_ratio=2e-5, visit=2.62, accept=-5.0, maxfun=1e7, seed=None, no_local_search=False,
                   callback=None, x0=None):
    return _search('dual_annealing', func, _near(x0), callback, dict(bounds=bounds, x0=x0, maxiter=maxiter))


REG = {'TBPSA': NgFamily(), 'Serial': NgFamily(True)}
MODS = {
    'nevergrad': dict(p=types.SimpleNamespace(Array=NgArray),
                      optimizers=types.SimpleNamespace(registry=REG, base=types.SimpleNamespace(Optimizer=NgOptimizer))),
    'optsam': dict(GFLS=GFLS, Hook=Hook, Logger=Logger, Reporter=Reporter),
    'scipy': {},
    'scipy.optimize': dict(basinhopping=basinhopping, differential_evolution=differential_evolution,
                           dual_annealing=dual_annealing, minimize=minimize, shgo=shgo),
}
_saved = {n: sys.modules.get(n) for n in MODS}
for _n, _a in MODS.items():
    sys.modules[_n] = types.ModuleType(_n)
    sys.modules[_n].__path__ = []
    sys.modules[_n].__dict__.update(_a)
from glompo.optimizers.gfls import GFLSOptimizer  # noqa: E402
from glompo.optimizers.nevergrad import Nevergrad  # noqa: E402
from glompo.optimizers.scipy import ScipyOptimizeWrapper  # noqa: E402
for _n, _m in _saved.items():
    if _m is None:
        del sys.modules[_n]
    else:
        sys.modules[_n] = _m


class WNever(PO.Watched, Nevergrad):
    pass


class WGFLS(PO.Watched, GFLSOptimizer):
    pass


class WScipy(PO.Watched, ScipyOptimizeWrapper):
    pass


PO.KINDS.update({
    'ng': (WNever, dict(optimizer='TBPSA', zero=0.01), {}),
    'ng2': (WNever, dict(optimizer='TBPSA', zero=0.01, workers=2), {}),
    'gfls': (WGFLS, dict(other_hooks=[Enough()]), {}),
    'gfls2': (WGFLS, dict(other_hooks=[Enough()], workers=2), {}),
    'gfls3': (WGFLS, dict(other_hooks=[Enough(7)], workers=3), {}),
    'scipy': (WScipy, {}, {}),
})


class Task(PO.Clocked):
    def detailed_call(self, x):
        v = self(x)
        return v, np.array([i - 0.3 for i in x])


def value(x):
    return sum((i - 0.3) ** 2 for i in x)


def told_right(ctx, log, kind):
    """ What the library is told belongs to a point it asked for; each asked point is evaluated. """
    asked = [e[1] for e in log if e[0] == 'ask']
    evals = [e[1] for e in log if e[0] == 'eval']
    told = [(e[1], e[2]) for e in log if e[0] == 'tell']
    left = list(asked)
    for x, v in told:
        if x not in left:
            ctx.fail('told', f'{x} was told but not asked for (or twice)')
            continue
        left.remove(x)
        want = value(x) if kind.startswith('ng') else [i - 0.3 for i in x]
        ctx.eq(v, want, 'told', f'what was told of {x}')
    extra = [x for x in evals]
    for x in asked:
        if x in extra:
            extra.remove(x)
    ctx.true(len(extra) <= (1 if kind.startswith('ng') else 0), 'points', f'{extra} were evaluated without being asked for')
    return len(told)


def dialogue(kind, be, depth, alphabet, delays, ponder=None):
    """ The programs of signals of p_opt, with the library watched. """
    w = PO.KINDS[kind][1].get('workers', 1)

    def fn(ctx):
        ops = []
        for i in range(depth):
            op = ctx.pick(alphabet + ('end',), f'{i}')
            if op == 'end':
                break
            ops.append(op)
        ctx.w.data['ponder'] = ponder
        s = PO.Session(ctx, kind, be, task=Task())
        s.batch = s.in_flight = w
        # nevergrad asks once more before it looks at its budget; the wrapper evaluates the recommendation
        s.after_stop = 2 * w if kind.startswith('ng') else (0 if w == 1 else w)
        s.run(ops, delays)
        s.judge()
        log = list(ctx.w.log)
        told_right(ctx, log, kind)
        busy = peak = held = most = 0
        for e in log:
            busy += {'eval': 1, 'value': -1}.get(e[0], 0)
            peak = max(peak, busy)
            held += {'value': 1, 'tell': -1}.get(e[0], 0)
            most = max(most, held)
        ctx.note(most)
        if kind.startswith('gfls'):  # no more than the workers can hold waits to be told
            ctx.true(most <= w, 'untold', f'{most} values were known at a time which the library was not told, with {w} workers')
        ctx.true(peak <= w and busy == 0, 'workers', f'{peak} evaluations at a time on {w} workers, {busy} never ended')
        closing(ctx, s, log, kind)
        ctx.see(repr([e[:2] for e in log]))
        if not ctx.viol:
            for p in s.paths:
                n = next((n for n, e in enumerate(log) if e[0] == 'act' and e[1] == 'save' and e[2] == p), None)
                if n is not None:
                    resumed(ctx, s, p, log[:n], kind)
    return fn


def closing(ctx, s, log, kind, stopped=False):
    end = [e for e in log if e[0] == 'end']
    stopped = stopped or any(e[0] == 'act' and e[1] == 'stop' for e in log)
    bye = [m for m in s.msgs if m[0] == 0]
    if not end or not bye:
        return
    if kind.startswith('ng'):
        res = end[0][2]
        vals = [e[2] for e in log if e[0] == 'tell']
        ctx.eq(res.fx, value(res.x), 'result', 'value of the result')
        if vals:
            ctx.true(res.fx <= min(vals), 'result', f'{res.fx} was returned, {min(vals)} was found')
        zero = [v for v in vals if v <= 0.01]
        ctx.true(stopped or bool(zero), 'ended', f'ended without a reason: {bye}')
    else:
        told = len([1 for e in log if e[0] == 'tell'])
        if not stopped:
            ctx.true(told >= 3 or s.opt.is_restart, 'ended', f'ended after {told} evaluations: {bye}')
            ctx.true('enough' in str(bye[0][1]), 'goodbye', f'the reason was not given: {bye}')
        hooks = [e[2] for e in log if e[0] == 'hook' and e[1] == 'Enough']
        want = ([] if s.opt.is_restart else ['before']) + ['tell'] * told + ['stop']
        ctx.eq(hooks, want, 'hooks', 'calls of the hook')


def resumed(ctx, s, path, before, kind):
    log0 = list(ctx.w.log)
    stopped = any(e[0] == 'act' and e[1] == 'stop' for e in before)
    inj = [e for e in before if e[0] == 'act' and e[1] == 'inj']
    del ctx.w.log[:]
    del ctx.w.log.times[:]
    r = PO.Session(ctx, kind, 'threads', opt=path, task=Task())
    ctx.true(r.opt.is_restart is True, 'restart', 'the restored optimizer does not know that it is one')
    if inj:
        ctx.eq([list(r.opt.incumbent['x']), r.opt.incumbent['fx']], [inj[-1][2], inj[-1][3]], 'restart', 'shared solution')
    r.run([], (0,))
    log = list(ctx.w.log)
    for t in ctx.w.tasks[1:]:
        if t.exc is not None:
            ctx.fail('restart', f'{t.name} raised {t.exc!r} after the restart')
    told_right(ctx, log, kind)
    closing(ctx, r, log, kind, stopped)
    zero = [m for m in r.msgs if m[0] == 0]
    ctx.true(len(zero) == 1, 'goodbye', f'{len(zero)} closing messages after the restart: {r.msgs}')
    told0 = len([1 for e in before if e[0] == 'tell'])
    told = len([1 for e in log if e[0] == 'tell'])
    if kind == 'gfls':
        ctx.eq(told, 0 if stopped else 3 - told0, 'restart', 'evaluations after the restart')
    if kind == 'ng' and not stopped:
        # the search goes on where it stood: points in turn
        a0 = [e[1] for e in before if e[0] == 'ask']
        a1 = [e[1] for e in log if e[0] == 'ask']
        seq = [[0.05], [0.15], [0.25]]
        want = [seq[(len(a0) + k) % 3] for k in range(len(a1))]
        ctx.true(bool(a1) and np.allclose(a1, want), 'restart', f'after {a0} the search went on with {a1}')
    ctx.w.log[:] = log0
    ctx.w.log.times[:] = [0] * len(log0)


# ---- details of the wrappers on their own ----------------------------------------------------------------------------
def alone_ng(ctx):
    """ No manager: callbacks of the user, thresholds, families without parallelism. """
    fam = ctx.pick(('TBPSA', 'Serial'), 'algorithm')
    workers = ctx.pick((1, 2), 'workers')
    zero = ctx.pick((0.03, 0.0025000000000000005), 'zero')
    how = ctx.pick(('none', 'one', 'list', 'two'), 'callbacks')
    calls = []

    def cb(k):
        return lambda o, x, fx: calls.append((k, [float(i) for i in x.value], fx)) or False
    cbs = {'none': None, 'one': cb(0), 'list': [cb(0)], 'two': [cb(0), cb(1)]}[how]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        opt = Nevergrad(optimizer=fam, workers=workers, zero=zero, backend='threads')
    ctx.eq(opt.workers, 1 if fam == 'Serial' else workers, 'workers', 'workers')
    ctx.eq(bool([w for w in ws if 'parallel' in str(w.message)]), fam == 'Serial', 'warning', 'told that workers are overruled')
    q, pipe, flag = [], [], []
    import queue
    opt._results_queue = queue.Queue()

    class Pipe:
        def poll(self, *a):
            return False

        def send(self, m):
            pipe.append(m)
    import threading
    opt._signal_pipe, opt._pause_signal = Pipe(), threading.Event()
    opt._pause_signal.set()
    seen = []

    def f(x):
        x = [float(i) for i in x]
        seen.append(x)
        return value(x)
    extra = ctx.pick((None, 5), 'extra')
    opt.minimize(f, [0.5], [(0.0, 1.0)], cbs, **({'extra': extra} if extra else {}))
    ctx.eq(opt.optimizer.extra, extra, 'settings', 'argument for the library')
    ctx.eq(opt.optimizer.num_workers, opt.workers, 'settings', 'workers of the library')
    ctx.eq(opt.optimizer.parametrization.bounds, ([0.0], [1.0]), 'settings', 'bounds')
    ctx.eq(list(opt.optimizer.parametrization.value), [0.5], 'settings', 'starting point')
    ctx.eq(len([m for m in pipe if m[0] == 0]), 1, 'goodbye', 'closing messages')
    n = {'none': 0, 'one': 1, 'list': 1, 'two': 2}[how]
    for k in range(n):
        got = [c[1:] for c in calls if c[0] == k]
        for x, fx in got:
            ctx.eq(fx, value(x), 'callbacks', 'value given to the callback')
        ctx.true(len(got) >= 1, 'callbacks', 'callback not called')
    ctx.note(len(seen), len(calls))


def stopping_ng(ctx):
    """ A callback which stops the search, values beyond all limits. """
    vals = [ctx.pick((5.0, 1e29, 1e30, INF, -1.0, 0.0), 'value') for _ in range(3)]
    at = ctx.pick((None, 1, 2, 3), 'stop at')
    zero = ctx.pick((-INF, 0.0), 'zero')
    opt = Nevergrad(optimizer='TBPSA', zero=zero, backend='threads')
    import queue
    import threading
    opt._results_queue = queue.Queue()
    pipe, seen, calls = [], [], []

    class Pipe:
        def poll(self, *a):
            return False

        def send(self, m):
            pipe.append(m)
    opt._signal_pipe, opt._pause_signal = Pipe(), threading.Event()
    opt._pause_signal.set()
    want = next((k for k in range(1, 4) if vals[k - 1] >= 1e30 or vals[k - 1] <= zero or k == at), 4)

    def f(x):
        seen.append(1)
        if len(seen) > 12:
            raise RuntimeError('endless')
        k = len(seen)
        return vals[k - 1] if k <= 3 else INF

    def cb(o, x, fx):
        calls.append(1)
        return len(calls) == at
    try:
        res = opt.minimize(f, [0.5], [(0.0, 1.0)], cb)
    except RuntimeError:
        ctx.fail('endless', f'values {vals}, stopped by the user at {at}: the search did not end')
        return
    ctx.eq(len([m for m in pipe if m[0] == 0]), 1, 'goodbye', 'closing messages')
    ctx.true(want <= len(seen) <= want + 2, 'ended', f'values {vals}, stop at {at}, zero {zero}: {len(seen)} evaluations')
    ctx.eq(bool(res.success), bool(res.fx < INF), 'result', 'success')
    ctx.note(len(seen))


METHODS = ('Nelder-Mead', 'L-BFGS-B', 'basinhopping', 'differential_evolution', 'shgo', 'dual_annealing')


def run_scipy(be):
    def fn(ctx):
        method = ctx.pick(METHODS, 'method')
        how = ctx.pick(('none', 'one', 'two'), 'callbacks')
        rets = [ctx.pick((None, True, False), 'returns') for _ in range({'none': 0, 'one': 1, 'two': 2}[how])]
        dim = ctx.pick((1, 2), 'dimensions')
        x0 = [ctx.pick((0.5, 0.25), 'x0')] * dim
        calls = []

        def cb(k):
            def g(*a, **kw):
                calls.append(k)
                return rets[k]
            return g
        cbs = [cb(k) for k in range(len(rets))] or None
        PO.X0['scipy'] = x0
        kw = {'Nelder-Mead': dict(options=dict(maxiter=3)), 'basinhopping': dict(niter=4), 'shgo': dict(iters=2)}.get(method, {})
        if 'anneal' in method or 'evol' in method:
            kw = dict(maxiter=4)
        s = PO.Session(ctx, 'scipy', be, task=Task(dt=0), method=method)
        s.t = None
        import multiprocessing
        import threading
        mk = multiprocessing.Process if be == 'processes' else threading.Thread
        s.t = mk(target=s.opt._minimize, args=(s.task, x0, s.bounds, cbs), kwargs=kw, name=f'Opt{PO.ID}')
        s.run([], (0,))
        log = ctx.w.log
        for t in ctx.w.tasks[1:]:
            if t.exc is not None:
                ctx.fail('exception', f'{method}: {t.name} raised {t.exc!r}')
                return
        done = [(e[1], e[2]) for e in log if e[0] == 'value']
        ctx.eq(len(done), 3, 'evaluations', 'evaluations')
        name, took = [e[1:] for e in log if e[0] == 'scipy'][0]
        ctx.eq(name, method if method in ('basinhopping', 'differential_evolution', 'shgo', 'dual_annealing') else 'minimize',
               'method', 'function of the library')
        if name == 'minimize':
            ctx.eq(took['method'], method, 'method', 'method of minimize')
        if 'bounds' in took:
            ctx.eq([tuple(b) for b in took['bounds']], s.bounds, 'settings', 'bounds')
        if took.get('x0') is not None:
            ctx.eq(list(took['x0']), x0, 'settings', 'starting point')
        elif 'x0' in took:
            ctx.fail('settings', f'{method} was not given the starting point')
        for k, v in kw.items():
            if k in took:
                ctx.eq(took[k], v, 'settings', f'argument {k}')
        given = [e[1] for e in log if e[0] == 'callback']
        ctx.eq(given, [next((r for r in reversed(rets) if r is not None), None)] * 3, 'callbacks', 'answer of the callbacks')
        if be == 'threads':
            ctx.eq(calls, list(range(len(rets))) * 3, 'callbacks', 'callbacks called')
        ctx.eq([([float(i) for i in r.x], r.fx) for r in s.items[:-1]], done, 'record', 'evaluations handed on')
        ctx.eq(s.items[-1], PO.ID, 'end-marker', 'last item on the queue')
        ctx.eq(len([m for m in s.msgs if m[0] == 0]), 1, 'goodbye', 'closing messages')
        end = [e for e in log if e[0] == 'end'][0][2]
        x, v = min(done, key=lambda d: d[1])
        ctx.eq([[float(i) for i in end.x], end.fx], [x, v], 'result', 'result')
        ctx.note(method, len(calls))
    return fn


def settings_gfls(ctx):
    """ How the algorithm and its hooks are set up. """
    lg, vb, oh = ctx.flag('logger'), ctx.flag('verbose'), ctx.flag('other hooks')
    kw = {k: v for k, v in dict(tr_max=0.25, xtol=1e-2, seed=3).items() if ctx.flag(k)}
    mine = [Enough()] if oh else None
    opt = GFLSOptimizer(logger=lg, verbose=vb, other_hooks=mine, **kw)
    at = ctx.pick((1, 2), 'callback stops')
    n = []

    def cb():
        n.append(1)
        return 'cb' if len(n) == at else None
    task = Task(dt=0)
    res = opt.minimize(task, [0.5], [(0.0, 1.0)], cb)
    ctx.eq(len(n), at, 'callbacks', 'calls of the callback')
    ctx.eq(opt.gfls.told, at, 'ended', 'evaluations')
    ctx.eq(opt.gfls.state['ncall'], at, 'settings', 'calls counted')
    ctx.eq(list(opt.gfls.x0), [0.5], 'settings', 'starting point')
    ctx.eq([tuple(b) for b in opt.gfls.bounds], [(0.0, 1.0)], 'settings', 'bounds')
    ctx.eq(opt.gfls.kwargs, dict({'tr_max': 0.5}, **kw), 'settings', 'arguments of the algorithm')
    want = ['Enough'] * oh + ['Logger'] * lg + ['Reporter'] * vb
    ctx.eq([type(h).__name__ for h in opt.hooks], want, 'hooks', 'hooks')
    for k in want:
        ctx.eq([e[2] for e in ctx.w.log if e[0] == 'hook' and e[1] == k], ['before'] + ['tell'] * at + ['stop'], 'hooks',
               f'calls of {k}')
    if oh:
        ctx.eq(len(mine), 1, 'hooks', 'hooks of the user')
    ctx.true(res is opt.result, 'result', 'what is returned')


def p38(tier):
    deep = tier == 'thorough'
    us = [SeqUnit('alone-nevergrad', alone_ng), SeqUnit('stopping-nevergrad', stopping_ng),
          SeqUnit('settings-gfls', settings_gfls)]
    for be in ('threads', 'processes'):
        us += [
            SeqUnit(f'nevergrad-{be}', dialogue('ng', be, 2 if not deep else 3, PO.OPS, (0, 0.5, 1.0)), dict(s=0)),
            SeqUnit(f'nevergrad-races-{be}', dialogue('ng', be, 1, ('inj', 'stop', 'save', 'pass', 'abort', 'hold'), (0, 1.0)),
                    dict(s=1 if not deep else 2)),
            SeqUnit(f'gfls-{be}', dialogue('gfls', be, 2 if not deep else 3, PO.OPS, (0, 0.5, 1.0)), dict(s=0)),
            SeqUnit(f'gfls-races-{be}', dialogue('gfls', be, 1, ('inj', 'stop', 'save', 'pass', 'abort', 'hold'), (0, 1.0)),
                    dict(s=1 if not deep else 2)),
            SeqUnit(f'scipy-{be}', run_scipy(be), dict(s=0)),
        ]
    us += [SeqUnit('nevergrad-parallel', dialogue('ng2', 'threads', 1, ('inj', 'stop', 'hold'), (0, 0.5, 1.0)), dict(s=0)),
           SeqUnit('gfls-parallel', dialogue('gfls2', 'threads', 2, ('inj', 'stop', 'save', 'pass', 'hold'), (0, 0.5)), dict(s=0)),
           SeqUnit('gfls-parallel-slow', dialogue('gfls3', 'threads', 2, ('stop', 'save', 'pass'), (0, 1.5), ponder=2.5), dict(s=0)),
           SeqUnit('gfls-parallel-races', dialogue('gfls3', 'threads', 1, ('stop',), (0,), ponder=1.0), dict(s=1))]
    return us


PROPS = {
    'P38': dict(units=p38),
}
