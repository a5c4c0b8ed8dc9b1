"""Exhaustive enumeration of operation sequences and input shapes on sequential code: every decision of the driver is a
choice point of a single-task World (so that the clock is virtual), and every combination of choices is executed."""
import os
import random
import shutil
import sys
import traceback
import warnings

from . import boot, kernel
from .explore import Outcome
from .kernel import World

import numpy as np


class Stop(Exception):
    """ A branch which leads nowhere (e.g. an illegal combination). """


class Ctx:
    def __init__(self, world):
        self.w = world
        self.viol = []
        self.states = set()
        self.ops = 0
        self.desc = []
        self._dir = None
        self.outcome = []

    def pick(self, options, label=''):
        """ One of the options; every one is explored. """
        options = list(options)
        k = self.w.choose_value(len(options), label) if len(options) > 1 else 0
        self.desc.append((label, options[k]))
        self.ops += 1
        return options[k]

    def flag(self, label=''):
        return self.pick((False, True), label)

    def fail(self, key, msg):
        self.viol.append((key, f'{msg} [{self.describe()}]'))

    def eq(self, got, want, key, what=''):
        if not same(got, want):
            self.fail(key, f'{what}: got {got!r}, expected {want!r}')
            return False
        return True

    def true(self, cond, key, what=''):
        if not cond:
            self.fail(key, what)
        return bool(cond)

    def raises(self, exc, fn, key, what=''):
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(key, f'{what}: raised {e!r} instead of {exc}')
            return False
        self.fail(key, f'{what}: did not raise {exc}')
        return False

    def see(self, *state):
        self.states.add(hash(repr(state)))

    def note(self, *a):
        self.outcome.append(a)

    def describe(self):
        return ', '.join(f'{a}={short(b)}' for a, b in self.desc if a != '')

    @property
    def dir(self):
        if self._dir is None:
            self._dir = boot.scratch()
        return self._dir


def short(o):
    s = repr(o)
    return s if len(s) < 60 else s[:57] + '...'


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and all(same(i, j) for i, j in zip(a.ravel().tolist(), b.ravel().tolist()))
        except Exception:
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


class Sink:
    closed = False

    def write(self, s):
        pass

    def flush(self):
        pass


class SeqUnit:
    """ fn(ctx) drives the code and compares. """

    def __init__(self, name, fn, budget=None, need_dir=False):
        self.name, self.fn, self.budget = name, fn, budget or {}

    def run(self, prefix):
        w = World(prefix)
        ctx = Ctx(w)
        random.seed(1)
        np.random.seed(1)
        saved = sys.stdout, sys.stderr
        saved_filters = warnings.filters[:]
        saved_show = warnings.showwarning
        cwd = os.getcwd()
        err = []

        def main():
            try:
                self.fn(ctx)
            except Stop:
                pass
            except (kernel.Divergence, kernel.StopWorld):
                raise
            except Exception as e:
                err.append(e)

        sys.stdout = sys.stderr = Sink()
        ctx.warnings = []
        warnings.showwarning = lambda m, c, *a, **k: ctx.warnings.append(str(m))
        warnings.simplefilter('always')
        try:
            w.run(main)
        finally:
            sys.stdout, sys.stderr = saved
            os.chdir(cwd)
            warnings.showwarning = saved_show
            warnings.filters[:] = saved_filters
            getattr(warnings, '_filters_mutated', lambda: None)()
            if ctx._dir:
                shutil.rmtree(ctx._dir, ignore_errors=True)
        t = w.tasks[0]
        if isinstance(t.exc, kernel.Divergence):
            raise t.exc
        for e in err:
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
            ctx.fail('exception', f'raised {e!r}: {tb}')
        for k, m in w.problems:
            ctx.fail(k, m)
        return Outcome(w.trace, ctx.viol, ctx.ops + w.steps, ctx.states or {hash(repr(ctx.desc))},
                       sample=None if prefix and len(w.trace) < 2 else dict(unit=self.name, case=ctx.describe()[:400]),
                       stats={'outcomes': {hash(repr(ctx.outcome) if ctx.outcome else repr(ctx.desc))}})
