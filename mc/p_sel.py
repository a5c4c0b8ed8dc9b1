"""Selectors (P24) and generators of starting points (P25)."""
import copy
import datetime
import math
import random

import numpy as np

from .seq import SeqUnit, Stop
from . import opts as O  # noqa

from glompo.common.namedtuples import IterationResult, Result
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger
from glompo.generators import (ExploitExploreGenerator, IncumbentGenerator, RandomGenerator, SinglePointGenerator)
from glompo.generators.basinhopping import BasinHoppingGenerator
from glompo.opt_selectors import ChainSelector, CycleSelector, RandomSelector
from glompo.opt_selectors.spawncontrol import IterSpawnStop, NOptimizersSpawnStop

NAN, INF = float('nan'), float('inf')


# ---------------------------------------------------------------------------------------------------------------- P24
class OptA(O.ScriptOpt):
    pass


class OptB(O.ScriptOpt):
    pass


class OptC(O.ScriptOpt):
    pass


CLASSES = (OptA, OptB, OptC)


def settings(form, w):
    """ (as given, what must be returned) """
    if form == 'class':
        return None, ({'workers': 1}, {})
    if form == 'none':
        return (None, None), ({'workers': 1}, {})
    if form == 'init':
        return ({'workers': w, 'a': [1]}, None), ({'workers': w, 'a': [1]}, {})
    if form == 'noworkers':
        return ({'a': w}, {'b': {'c': w}}), ({'a': w, 'workers': 1}, {'b': {'c': w}})
    return (None, {'n': w}), ({'workers': 1}, {'n': w})


def spawn_options():
    return [('always', None), ('calls', 2), ('opts', 2), ('own', None)]


class Own:
    def __init__(self):
        self.allowed = True

    def __call__(self, manager):
        return self.allowed


def selectors(kind, n_opts, depth, workers, forms, slots, jumps=(0, 1, 2)):
    def fn(ctx):
        given, want = [], []
        for i in range(n_opts):
            form = ctx.pick(forms, 'form') if len(forms) > 1 else forms[0]
            w = ctx.pick(workers, 'workers') if form == 'init' and len(workers) > 1 else workers[0]
            g, r = settings(form, w)
            given.append(CLASSES[i] if g is None else (CLASSES[i],) + g)
            want.append((CLASSES[i],) + r)
        kept = copy.deepcopy(given)
        sname, limit = ctx.pick(spawn_options(), 'spawn')
        own = Own()
        control = {'always': None, 'calls': IterSpawnStop(2), 'opts': NOptimizersSpawnStop(2), 'own': own}[sname]
        if kind == 'chain':
            thr = []
            for k in range(n_opts - 1 + ctx.pick((0, 1), 'last threshold')):
                thr.append(ctx.pick([t for t in (0, 1, 2, 4) if not thr or t >= thr[-1]], 'threshold'))
            kept_thr = list(thr)
            s = ChainSelector(*given, fcall_thresholds=thr, allow_spawn=control)
        elif kind == 'cycle':
            s = CycleSelector(*given, allow_spawn=control)
        else:
            s = RandomSelector(*given, allow_spawn=control)
        for c in CLASSES:
            ctx.eq(c in s, c in CLASSES[:n_opts], 'contains', f'{c.__name__} in the selector')
        m = GloMPOManager()
        log = BaseLogger(False)
        m.opt_log = log
        at = 0
        for step in range(depth):
            m.f_counter += ctx.pick(jumps, 'evaluations') if step else 0
            sl = ctx.pick(slots, 'slots')
            if sname == 'own':
                own.allowed = ctx.flag('allowed')
            allowed = {'always': True, 'calls': m.f_counter < 2, 'opts': m.o_counter < 2, 'own': own.allowed}[sname]
            got = s.select_optimizer(m, log, sl)
            if not allowed:
                exp = [False]
            elif kind == 'chain':
                i = 0
                while i < len(thr) and m.f_counter >= thr[i]:
                    i += 1
                exp = [False if i >= n_opts else want[i] if want[i][1]['workers'] <= sl else None]
            elif kind == 'cycle':
                if want[at][1]['workers'] <= sl:
                    exp = [want[at]]
                    at = (at + 1) % n_opts
                else:
                    exp = [None]
            else:
                exp = [w for w in want if w[1]['workers'] <= sl] or [None]
            ok = any((got is e) if e is None or e is False else
                     (isinstance(got, tuple) and got[0] is e[0] and got[1:] == e[1:]) for e in exp)
            ctx.true(ok, 'selection', f'request {step} (evaluations {m.f_counter}, started {m.o_counter}, slots {sl}): '
                     f'got {got!r}, expected {exp if len(exp) > 1 else exp[0]!r}')
            if isinstance(got, tuple):
                ctx.true(got[1].get('workers', 1) <= sl, 'slots', f'{got} needs more than {sl} slots')
                m.o_counter += 1
            ctx.see(kind, repr(got)[:80], m.f_counter, sl)
            ctx.note(got[0].__name__ if isinstance(got, tuple) else got)
        ctx.true(given == kept, 'changed', f'the configuration was changed: {given} instead of {kept}')
        if kind == 'chain':
            ctx.eq(s.fcall_thresholds, kept_thr, 'changed', 'thresholds')
    return fn


def spread(ctx):
    """ Every viable optimizer can be chosen, independently of the position in the list. """
    n = ctx.pick((1, 2, 3), 'n')
    ws = [ctx.pick((1, 2), 'workers') for _ in range(n)]
    sl = ctx.pick((0, 1, 2), 'slots')
    s = RandomSelector(*[(CLASSES[i], {'workers': w}, None) for i, w in enumerate(ws)])
    m = GloMPOManager()
    random.seed(3)
    np.random.seed(3)
    seen = set()
    for _ in range(200):
        r = s.select_optimizer(m, None, sl)
        seen.add(r and r[0])
    ctx.eq(seen, {CLASSES[i] for i in range(n) if ws[i] <= sl} or {None}, 'spread', 'choices seen in 200 draws')
    ctx.note(len(seen))


def p24(tier):
    deep = tier == 'thorough'
    d = 1 if deep else 0
    return [
        SeqUnit('cycle', selectors('cycle', 3, 3 + d, (1, 2, 3), ('init',), (0, 1, 2, 3), (0, 2))),
        SeqUnit('cycle-two', selectors('cycle', 2, 5 + d, (1, 2), ('init',), (1, 2), (0, 1))),
        SeqUnit('chain', selectors('chain', 2, 3 + d, (1, 2), ('init',), (1, 2), (0, 1, 2))),
        SeqUnit('chain-three', selectors('chain', 3, 3 + d, (1, 2), ('init',), (1, 2), (0, 1, 2, 4) if deep else (0, 1, 4))),
        SeqUnit('random', selectors('random', 3, 2 + d, (1, 2, 3), ('init',), (0, 1, 2, 3))),
        SeqUnit('spread', spread),
        *[SeqUnit(f'forms-{k}', selectors(k, 2, 3, (1, 2), ('class', 'none', 'init', 'noworkers', 'call'), (1, 2),
                                          (0, 2))) for k in ('cycle', 'chain', 'random')],
        *[SeqUnit(f'one-{k}', selectors(k, 1, 3 + d, (1, 2), ('class', 'init'), (0, 1, 2), (0, 1)))
          for k in ('cycle', 'chain', 'random')],
    ]


# ---------------------------------------------------------------------------------------------------------------- P25
DRAWS = (0.0, 0.5, 1 - 2 ** -53)


class Draws:
    """ Every random number numpy hands out is a choice. """

    def __init__(self, ctx, draws=DRAWS):
        self.ctx, self.draws = ctx, draws

    def one(self):
        return self.ctx.pick(self.draws, '')

    def random(self, size=None):
        if size is None:
            return self.one()
        size = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        n = int(np.prod(size))
        v = self.one()
        # every coordinate the same extreme, or one of them the other way round
        a = np.full(n, v)
        if n > 1:
            k = self.ctx.pick(range(n + 1), '')
            if k:
                a[k - 1] = self.draws[-1] if v == self.draws[0] else self.draws[0]
        return a.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        shape = size if size is not None else (np.broadcast(low, high).shape or None)
        return low + (high - low) * self.random(shape)

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        assert a, 'choice from nothing'
        if p is None:
            idx = list(range(len(a)))
        else:
            p = [float(i) for i in p]
            if len(p) != len(a) or any(not i >= 0 for i in p) or abs(sum(p) - 1) > 1e-8:
                raise ValueError(f'probabilities {p} for {a}')
            idx = [i for i, q in enumerate(p) if q > 0]
        assert size is None
        return a[self.ctx.pick(idx, 'selected')]

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ('random', 'random_sample', 'uniform', 'choice')}
        np.random.random = np.random.random_sample = self.random
        np.random.uniform = self.uniform
        np.random.choice = self.choice
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


BOUNDS = [[(0, 1)], [(-1.5, 0.3)], [(0.1, 0.7), (-5, -4.999)], [(1e6, 1e6 + 1), (-1e-9, 1e-9)]]


def state(ctx, bounds, n_opts, values, depth):
    """ A manager whose log holds some history. """
    log = BaseLogger(True)
    m = GloMPOManager()
    m.opt_log = log
    m.bounds = [tuple(b) for b in bounds]
    m.n_parms = len(bounds)
    k = ctx.pick(range(n_opts + 1), 'optimizers')
    best = None
    bests = {}
    for o in range(1, k + 1):
        log.add_optimizer(o, 'T', datetime.datetime(2020, 1, 1))
        m.o_counter += 1
        for j in range(depth):
            v = ctx.pick(('none',) + values, f'value of {o}')
            if v == 'none':
                break
            if not log.has_iter_history(o):
                log.add_iter_history(o)
            # points of the different optimizers: corners and inside, clearly apart
            x = [lo + (hi - lo) * ((0.0, 0.25, 0.75, 1.0)[(o + 2 * j) % 4]) for lo, hi in bounds]
            x = [min(max(c, lo), hi) for c, (lo, hi) in zip(x, bounds)]
            log.put_iteration(IterationResult(o, x, v, ()))
            m.f_counter += 1
            if v < bests.get(o, (INF,))[0]:
                bests[o] = (v, x)
            if best is None and v < INF or best is not None and v < best[0]:
                best = (v, x, o)
    m.result = (Result(list(best[1]), best[0], {}, {'opt_id': best[2], 'type': 'T'}) if best else
                Result([], INF, {}, {'opt_id': 0, 'type': ''}) if ctx.flag('result emptied') else
                Result(None, None, None, None))
    return m, best, bests


def within(ctx, x, bounds, what):
    ok = True
    try:
        vals = [float(i) for i in x]
        ok = len(vals) == len(bounds) and np.ndim(x) == 1
    except Exception:
        ok = False
    if not ctx.true(ok, 'dimension', f'{what}: {x!r} has not {len(bounds)} coordinates'):
        return None
    for v, (lo, hi) in zip(vals, bounds):
        ctx.true(lo <= v <= hi, 'bounds', f'{what}: {v!r} outside [{lo}, {hi}]')
    return vals


def simple(ctx):
    b = ctx.pick(BOUNDS, 'bounds')
    as_array = ctx.flag('bounds as array')
    bb = np.array(b) if as_array else b
    with Draws(ctx):
        kind = ctx.pick(('random', 'single', 'single-given', 'incumbent'), 'generator')
        m, best, _ = state(ctx, b, 2, (1.0, -2.0, NAN, INF), 1) if kind == 'incumbent' else (GloMPOManager(), None, None)
        if kind == 'random':
            g = RandomGenerator(bb)
            for _ in range(2):
                within(ctx, g.generate(m), b, 'random point')
        elif kind.startswith('single'):
            mid = [lo + (hi - lo) / 3 for lo, hi in b]
            form = ctx.pick((list, tuple, np.array), 'form') if kind == 'single-given' else None
            g = SinglePointGenerator(bb, form(mid)) if form else SinglePointGenerator(bb)
            first = within(ctx, g.generate(m), b, 'single point')
            if form:
                ctx.eq(first, mid, 'single', 'point given')
            for i in range(3):
                p = g.generate(m)
                ctx.eq(within(ctx, p, b, 'single point'), first, 'single', 'repeated point')
                if i == 1 and not isinstance(p, tuple):
                    p[0] = 1e9  # an optimizer working on its starting point
        else:
            g = IncumbentGenerator(bb)
            p = g.generate(m)
            v = within(ctx, p, b, 'incumbent')
            if best:
                ctx.eq(v, list(best[1]), 'incumbent', 'starting point')
                if not isinstance(p, tuple):
                    p[0] = 1e9
                    ctx.eq(list(m.result.x), list(best[1]), 'aliased', 'incumbent of the manager after the optimizer '
                           'has changed its starting point')
        ctx.note(kind)
        ctx.see(kind, ctx.describe())


def blend(n_opts, depth, values):
    def fn(ctx):
        b = ctx.pick(BOUNDS[1:3], 'bounds')
        focus = ctx.pick((0.5, 1, 2.0), 'focus')
        mx = ctx.pick((2, 10), 'max calls')
        m, best, bests = state(ctx, b, n_opts, values, depth)
        m.f_counter = ctx.pick((0, 1, 2, 5, 10, 11), 'evaluations so far')
        fin = {o: v for o, v in bests.items() if math.isfinite(v[0])}
        with Draws(ctx):
            g = ExploitExploreGenerator(b, mx, focus)
            x = within(ctx, g.generate(m), b, 'blend')
        if x is None:
            return
        p = min(max(m.f_counter / mx, 0), 1) ** focus
        ctx.see(p, len(fin), len(set(v[0] for v in fin.values())))
        ctx.note(p, len(fin))
        if len({v[0] for v in fin.values()}) < 2:
            return  # nothing to choose between: any valid point
        if p == 1:
            ctx.true(any(near(x, v[1], b) for v in fin.values()), 'incumbent',
                     f'{x} is no point evaluated before although the limit is reached')
            worst = max(v[0] for v in fin.values())
            # the roulette gives the worst no share
            ctx.true(any(near(x, v[1], b) for v in fin.values() if v[0] < worst), 'roulette',
                     f'{x} is the point of the worst optimizer')
        else:
            def residual(v):
                r = [(a - p * c) / (1 - p) for a, c in zip(x, v[1])]
                return all(lo - 1e-9 * (hi - lo) <= q <= hi + 1e-9 * (hi - lo) for q, (lo, hi) in zip(r, b))
            ctx.true(p == 0 or any(residual(v) for v in fin.values()), 'blend',
                     f'{x} is no blend of a point found and a point within bounds with share {p}')
    return fn


def near(x, y, b):
    return all(abs(i - j) <= 1e-9 * (hi - lo) for i, j, (lo, hi) in zip(x, y, b))


def hopping(n_opts, depth, values, calls, temps=(1,), intervals=(1, 2), steps=(0.5,), bounds=BOUNDS[1:3]):
    def fn(ctx):
        b = ctx.pick(bounds, 'bounds')
        temp = ctx.pick(temps, 'temperature')
        interval = ctx.pick(intervals, 'interval')
        rate = ctx.pick((0.0, 0.5, 1.0), 'target')
        step = ctx.pick(steps, 'step')
        m, best, bests = state(ctx, b, n_opts, values, depth)
        fin = {o: v for o, v in bests.items() if v[0] < INF}
        g = BasinHoppingGenerator(temperature=temp, max_step_size=step, target_accept_rate=rate, interval=interval)
        for i in range(calls):
            with Draws(ctx, (2.0 ** -60, 0.5, 1 - 2 ** -53) if n_opts > 1 else (2.0 ** -60, 1 - 2 ** -53)):
                x = within(ctx, g.generate(m), b, 'hop')
            if x is None:
                return
            if fin:
                ctx.true(any(all(abs(p - q) <= step * (1 + 1e-9) for p, q in zip(x, v[1])) for v in fin.values()),
                         'step', f'call {i}: {x} is further than {step} from every best point')

                def at(o, d):
                    return all(abs(p - q) <= d * (1 + 1e-9) for p, q in zip(x, fin[o][1]))
                top = [o for o in fin if fin[o][0] == best[0]]
                if temp == 0:
                    ctx.true(any(at(o, step) for o in top), 'cold', f'call {i}: {x} is not at the best point although the '
                             f'temperature is zero')
                if temp == INF and len(top) == 1 and len(fin) > 1 and len(fin) == len(bests):
                    ctx.true(any(at(o, step) for o in fin if o not in top), 'hot', f'call {i}: {x} is not at the point of '
                             f'another optimizer although the temperature is infinite')
                if n_opts == 1 and rate > 0:  # nothing but the first point is ever accepted
                    ctx.true(at(1, step * 0.9 ** (i // interval)), 'shrink', f'call {i}: step is still more than '
                             f'{step * 0.9 ** (i // interval)}: {x}')
                    if step < 0.1 and len(b) == 1:
                        least = step * 0.9 ** ((i + 1 + interval) // interval) / 3
                        ctx.true(not at(1, least), 'shrunk', f'call {i}: step of {least} or less: {x}')
            m.o_counter += 1
            ctx.see(i, len(fin), round(g.step_size, 6) if hasattr(g, 'step_size') else 0)
        ctx.note(len(fin), x)
    return fn


def growing(ctx):
    """ The step shrinks while nothing is found, and grows again, up to its maximum, once every optimizer improves. """
    b = ctx.pick(([(-100, 100)], [(-50, 60), (-200, 70)]), 'bounds')
    step = ctx.pick((0.05, 2.0), 'step')
    interval = ctx.pick((1, 2), 'interval')
    idle = ctx.pick((0, 3, 6), 'optimizers without any improvement')
    log = BaseLogger(True)
    m = GloMPOManager()
    m.opt_log, m.bounds, m.n_parms, m.result = log, [tuple(q) for q in b], len(b), Result(None, None, None, None)
    g = BasinHoppingGenerator(temperature=INF, max_step_size=step, target_accept_rate=0.5, interval=interval, factor=0.5)
    pts, sizes = [], []
    for i in range(idle + 16 * interval):
        m.o_counter += 1
        log.add_optimizer(m.o_counter, 'T', datetime.datetime(2020, 1, 1))
        if not pts or i >= idle:
            log.add_iter_history(m.o_counter)
            pts.append([float(10 * (len(pts) % 7 - 3)) for _ in b])
            log.put_iteration(IterationResult(m.o_counter, pts[-1], -float(i), ()))
            m.f_counter += 1
        with Forced(lambda: 1 - 2 ** -53):
            x = within(ctx, g.generate(m), b, 'hop')
        if x is None:
            return
        sizes.append(min(max(abs(p - q) for p, q in zip(x, y)) for y in pts))
        ctx.true(sizes[-1] <= step * (1 + 1e-9), 'step', f'call {i}: step of {sizes[-1]} when at most {step} is allowed')
    if idle:
        ctx.true(sizes[idle - 1] <= step * 0.5 ** (idle // interval - 1), 'shrink', f'without improvements: {sizes[:idle]}')
    ctx.true(sizes[-1] >= 0.99 * step, 'grow', f'all optimizers improve but the step remains at {sizes[-1]} instead of {step}: {sizes}')
    ctx.see(idle, interval, step)
    ctx.note(len(sizes))


class Forced:
    """ Random numbers are all the same; the last of the possibilities is chosen. """

    def __init__(self, value):
        self.value = value

    def random(self, size=None):
        return self.value() if size is None else np.full(size, self.value())

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        return low + (high - low) * self.random(size if size is not None else (np.broadcast(low, high).shape or None))

    def choice(self, a, size=None, replace=True, p=None):
        return list(range(a) if isinstance(a, (int, np.integer)) else a)[-1]

    __enter__, __exit__ = Draws.__enter__, Draws.__exit__


def p25(tier):
    from . import p_gen
    deep = tier == 'thorough'
    return [
        SeqUnit('simple', simple),
        SeqUnit('blend', blend(2, 1, (1.0, -2.0, NAN, INF, -INF, 1e300))),
        SeqUnit('blend-three', blend(3, 1, (1.0, 1.0 + 2 ** -52, -3.0) if not deep else
                                     (1.0, 1.0 + 2 ** -52, -3.0, 0.0, INF))),
        SeqUnit('hopping', hopping(2, 1, (1.0, NAN, INF, 5.0), 1, temps=(0, 1, 1e300, INF))),
        SeqUnit('growing', growing),
        SeqUnit('hopping-three', hopping(3, 1, (1.0, 5.0), 1, bounds=BOUNDS[1:3] if deep else BOUNDS[1:2])),
        SeqUnit('hopping-calls', hopping(1, 1, (1.0,), 3 if not deep else 4, intervals=(1, 2), steps=(0.05, 10.0), bounds=BOUNDS[1:2] if not deep else BOUNDS[1:3])),
        SeqUnit('hopping-two-calls', hopping(2, 1, (1.0, 5.0) if deep else (1.0,), 2, intervals=(1,), steps=(0.05,))),
    ] + p_gen.units(deep)


PROPS = {
    'P24': dict(units=p24),
    'P25': dict(units=p25),
}
