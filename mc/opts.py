"""Scripted extension points (optimizer, task, checker, hunter, selector, generator) through which the scenarios drive
and observe the real manager.  They use only the documented plug-in interfaces of glompo."""
import copy
import os
import sys

import numpy as np
import tables as tb

from . import boot  # noqa
from . import kernel

from glompo.convergence import BaseChecker
from glompo.core.function import BaseFunction
from glompo.generators import BaseGenerator
from glompo.hunters import BaseHunter
from glompo.opt_selectors import BaseSelector
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult


def data():
    return kernel.WORLD.data


def data_get(k):
    w = kernel.WORLD
    return None if w is None else w.data.get(k)


def emit(*ev):
    """ Append to the observation log of the execution. """
    w = kernel.WORLD
    if w is not None and not w.data.get('mute'):
        w.log.append(ev)


class Boom(RuntimeError):
    pass


class BoomKey(KeyError):
    pass


def boom(kind):
    """ A plug-in of the user may fail here (in scenarios which ask for it). """
    w = kernel.WORLD
    if w is None or w.current is None or w.data.get('mute'):
        return
    kinds = w.data.get('booms')
    if kinds and kind in kinds and w.current is w.tasks[0]:
        k = w.choose(('', 'f', 'f'), 'boom:' + kind)
        if k:
            emit('boom', kind, w.steps)
            raise (Boom, BoomKey)[k - 1]('boom in ' + kind)


def say(who, text, stream='stdout'):
    """ Prints in two pieces with a scheduling point between them. """
    w = kernel.WORLD
    emit('say', who, stream, text + '\n')
    getattr(sys, stream).write(text)
    w.point('print')
    print(file=getattr(sys, stream))


class ScriptTask:
    """ f([opt_id, pos]) = vals[opt_id][pos - 1] (a default formula beyond the table). """

    def __init__(self, vals=None, detailed=False):
        self.vals = vals or {}
        self.detailed = detailed

    def value(self, x):
        o, p = int(x[0]), int(x[1])
        row = self.vals.get(o) or self.vals.get(0)
        if row:
            return row[min(p, len(row)) - 1]
        return 100.0 - 10 * p + o

    def _eval(self, x):
        w = kernel.WORLD
        w.point('eval')
        fx = self.value(x)
        emit('eval', int(x[0]), int(x[1]), fx, w.steps)
        if 'chatty' in w.data:
            say(int(x[0]), f'<t{int(x[0])}.{int(x[1])}>')
        return fx

    def __call__(self, x):
        return self._eval(x)

    def __getstate__(self):
        if data_get('in_chk'):
            emit('task_saved')
        return dict(self.__dict__)


class DetailedTask(ScriptTask):
    def detailed_call(self, x):
        fx = self._eval(x)
        return fx, fx * 2 if np.isfinite(fx) else 0.0, f'm{int(x[1])}'

    def headers(self):
        boom('headers')
        return {'twice': tb.Float64Col(pos=0), 'msg': tb.StringCol(16, pos=1)}


class HeaderlessTask(ScriptTask):
    def detailed_call(self, x):
        fx = self._eval(x)
        return fx, float(x[1]), f'm{int(x[1])}'


class BadTask(ScriptTask):
    """ Cannot be saved in any way: every checkpoint fails. """

    def __reduce__(self):
        import pickle
        raise pickle.PicklingError('no')

    def __deepcopy__(self, memo):
        return self


class UnpicklableTask(ScriptTask):
    """ Cannot be pickled: exercises the checkpoint_save / task_loader path. """

    def __reduce__(self):
        import pickle
        raise pickle.PicklingError('no')

    def __deepcopy__(self, memo):
        return self

    def checkpoint_save(self, path):
        import json
        with open(os.path.join(str(path), 'mytask'), 'w') as f:
            json.dump({str(k): v for k, v in self.vals.items()}, f)

    @classmethod
    def checkpoint_load(cls, path):
        import json
        with open(os.path.join(str(path), 'mytask')) as f:
            return cls({int(k): v for k, v in json.load(f).items()})


def plain_task(vals=None):
    t = ScriptTask(vals)

    def plain_task(x):
        return t(x)
    return plain_task


class ScriptOpt(BaseOptimizer):
    """ Follows the template of the documentation: evaluate, read messages, honour the pause flag.

    script: sequence of ('e',) evaluate | ('b', dt) an evaluation which takes a while | ('B', n) n evaluations between two
    looks at the messages | ('m', text) message the manager | ('z', dt) sleep | ('x',) raise |
    ('q',) exit without a word | ('h',) hang for ever | ('p', text) print | ('o', text) print to stderr |
    ('c',) change the directory of the process
    After the script the optimizer reports its own convergence. """

    def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1,
                 backend='threads', is_log_detailed=False, script=(), silent_end=False, deaf=False, marker=None,
                 reuse=False, linger=None, **kw):
        super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed)
        boom('init')
        self.script = [tuple(a) for a in script]
        self.pos = 0
        self.nev = 0
        self.stopped = None
        self.silent_end = silent_end
        self.deaf = deaf
        self.marker = marker
        self.reuse = reuse
        self.linger = linger  # (seconds, evaluations) after having announced the end
        self.seen = []
        if kernel.WORLD is not None:
            kernel.WORLD.data.setdefault('pipe', {})[id(_signal_pipe)] = _opt_id
        self.bag = kw.get('bag')
        emit('opt_init', _opt_id, workers, backend, is_log_detailed,
             dict(script=self.script, marker=marker, kw=copy.deepcopy(kw)))

    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        w = kernel.WORLD
        me = self._opt_id
        w.current.opt_id = me
        emit('opt_start', me, [float(i) for i in x0], np.array(bounds).tolist(), callbacks, copy.deepcopy(kw),
             self.is_restart, self.nev, self.workers, self._backend)
        for bag in (self.bag, kw.get('bag')):  # what an optimizer is given belongs to it alone
            if bag is not None:
                bag['n'] += 1
                bag['all'].append(me)
        buf = np.zeros(2)
        while self.pos < len(self.script) and self.stopped is None:
            act = self.script[self.pos]
            self.pos += 1
            k = act[0]
            if k in 'ebB':
                if k == 'b':
                    w.sleep(act[1])
                for _ in range(act[1] if k == 'B' else 1):
                    self.nev += 1
                    x = buf if self.reuse else np.zeros(2)
                    x[0], x[1] = me, self.nev
                    r = function.detailed_call(x) if len(act) > 1 and act[1] == 'd' else function(x)
                    emit('ret', me, self.nev, r)
                    if self.reuse:
                        x[:] = -1
            elif k == 'm':
                self.message_manager(9, act[1])
                emit('msg', me, act[1])
            elif k == 'z':
                w.sleep(act[1])
            elif k == 'x':
                emit('opt_crash', me)
                raise RuntimeError(f'script crash of {me}')
            elif k == 'q':
                emit('opt_exit', me)
                return MinimizeResult()
            elif k == 'Q':
                emit('opt_exit' if act[1] == 0 else 'opt_fail', me)
                sys.exit(act[1])
            elif k == 'h':
                w.sleep(1e7)
            elif k == 'c':
                away = w.data['away']
                os.chdir(os.path.dirname(away) if os.getcwd() == os.path.realpath(away) else away)
            elif k in 'po':
                say(me, act[1], 'stdout' if k == 'p' else 'stderr')
            if not self.deaf:
                self.check_messages()
                self._pause_signal.wait()
        emit('opt_end', me, self.stopped)
        if not self.silent_end:
            self.message_manager(0, f'done {me}' if self.stopped is None else f'stopped {me}')
        if self.linger:
            w.sleep(self.linger[0])
            for _ in range(self.linger[1]):
                self.nev += 1
                emit('ret', me, self.nev, function(np.array([me, self.nev], dtype=float)))
        return MinimizeResult()

    def checkpoint_save(self, path, force=None):
        super().checkpoint_save(path, force)
        emit('opt_saved', self._opt_id, self.nev, self.pos)

    @classmethod
    def checkpoint_load(cls, path, **kwargs):
        opt = super().checkpoint_load(path, **kwargs)
        if kernel.WORLD is not None:
            kernel.WORLD.data.setdefault('pipe', {})[id(opt._signal_pipe)] = opt._opt_id
        d = data_get('loaded')
        if d is not None:
            d[opt._opt_id] = dict(nev=opt.nev, pos=opt.pos, cls=cls.__name__, marker=opt.marker)
        return opt

    def callstop(self, reason='manager'):
        emit('callstop', self._opt_id, reason)
        self.stopped = reason

    def inject(self, x, fx):
        emit('inject', self._opt_id, tuple(float(i) for i in x), fx)
        super().inject(x, fx)


class OtherOpt(ScriptOpt):
    """ A second type. """


class RecChecker(BaseChecker):
    """ Observes the manager on every pass, delegates the decision to an inner checker. """

    def __init__(self, inner, obs=None):
        super().__init__()
        self.inner = inner

    def __iter__(self):
        return iter(self.inner)

    def __str__(self):
        boom('report')
        return str(self.inner)

    def str_with_result(self):
        boom('checker-str')
        return self.inner.str_with_result()

    def reset(self):
        self.inner.reset()

    def __call__(self, manager):
        boom('checker')
        if data_get('chatty') and not data_get('mute'):
            w = kernel.WORLD
            w.data['chatty'] += 1
            say(0, f"<c0.{w.data['chatty']}>")
        r = self.inner(manager)
        self.last_result = r
        w = kernel.WORLD
        if w is not None and w.current is not None:
            f = w.data.get('on_check')
            if f:
                f(manager, r)
        return r


class RecHunter(BaseHunter):
    """ kills: set of (hunter, victim) pairs that are condemned, or callable key. """

    def __init__(self, kills=(), always=False, never=False):
        super().__init__()
        self.kills = set(map(tuple, kills))
        self.always = always
        self.never = never

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        r = bool(not self.never and (self.always or (hunter_opt_id, victim_opt_id) in self.kills))
        self.last_result = r
        return r


class Stubborn:
    """ Mixed in: cannot be pickled, as it holds something like an open file. """

    def __reduce_ex__(self, protocol):
        import pickle
        raise pickle.PicklingError('no')


class StubbornHunter(Stubborn, RecHunter):
    pass


class StubbornChecker(Stubborn, RecChecker):
    pass


class ObsHunter(BaseHunter):
    """ Observes every decision of an inner hunter. """

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def __iter__(self):
        return iter(self.inner)

    def __str__(self):
        return str(self.inner)

    def str_with_result(self):
        boom('hunter-str')
        return self.inner.str_with_result()

    def reset(self):
        self.inner.reset()

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        boom('hunter')
        r = self.inner(log, hunter_opt_id, victim_opt_id)
        self.last_result = r
        f = data().get('on_hunt')
        if f:
            f(log, hunter_opt_id, victim_opt_id, bool(r))
        return r


class RecSelector(BaseSelector):
    """ Delegates to a real selector and records what was asked and answered. """

    def __init__(self, inner):
        super().__init__(*inner.avail_opts)
        self.inner = inner

    def select_optimizer(self, manager, log, slots_available):
        boom('selector')
        r = self.inner.select_optimizer(manager, log, slots_available)
        f = data().get('on_select')
        if f:
            f(manager, slots_available, r)
        return r


class RecGenerator(BaseGenerator):
    def __init__(self, inner=None):
        super().__init__()
        self.inner = inner
        self.n = 0

    def generate(self, manager):
        boom('generator')
        self.n += 1
        x = [1.0 * self.n, 50.0] if self.inner is None else self.inner.generate(manager)
        emit('gen', self.n, [float(i) for i in x])
        return x
