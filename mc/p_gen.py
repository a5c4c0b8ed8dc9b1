"""Generators built on SciPy, which is not installed: stand-ins for what they use of it, whose every draw is a choice (units of P25).

truncnorm.rvs(a, b, loc, scale) is loc + scale z for a z within [a, b].  The annealing internals follow the interface of
scipy.optimize._dual_annealing: ObjectiveFunWrapper counts and forwards evaluations, EnergyState holds the current and the
best location, StrategyChain.run visits points and moves to those which are better."""
import datetime
import sys
import types

import numpy as np

from . import p_sel
from .p_sel import BOUNDS, INF, NAN, near, within
from .seq import SeqUnit

from glompo.common.namedtuples import IterationResult

DRAW = [None]  # (a, b) -> z


class TruncNorm:
    @staticmethod
    def rvs(a, b, loc=0, scale=1, size=None, random_state=None):
        if not a < b or not scale > 0:
            raise ValueError(f'Domain error in arguments: {a}, {b}, {scale}')
        one = lambda lo, hi, m, s: m + s * DRAW[0](lo, hi)
        if size is None and np.ndim(a) == 0:
            return one(a, b, loc, scale)
        return np.array([one(*q) for q in np.broadcast(a, b, loc, scale)])


class ObjectiveFunWrapper:
    def __init__(self, func, maxfun=1e7, *args):
        self.func, self.args, self.nfev, self.ngev, self.nhev, self.maxfun = func, args, 0, 0, 0, maxfun

    def fun(self, x):
        self.nfev += 1
        return self.func(x, *self.args)


class VisitingDistribution:
    def __init__(self, lb, ub, visiting_param, rand_state):
        self.lower, self.upper, self.rand_state = np.array(lb, float), np.array(ub, float), rand_state


class EnergyState:
    def __init__(self, lower, upper, callback=None):
        self.ebest = self.current_energy = self.current_location = self.xbest = None
        self.lower, self.upper, self.callback = lower, upper, callback

    def reset(self, func_wrapper, rand_gen, x0=None):
        self.current_location = np.copy(x0) if x0 is not None else START[0](self.lower, self.upper)
        self.current_energy = func_wrapper.fun(self.current_location)
        if self.ebest is None and self.xbest is None:
            self.ebest, self.xbest = self.current_energy, np.copy(self.current_location)

    def update_best(self, e, x, context):
        self.ebest, self.xbest = e, np.copy(x)

    def update_current(self, e, x):
        self.current_energy, self.current_location = e, np.copy(x)


class StrategyChain:
    def __init__(self, acceptance_param, visit_dist, func_wrapper, minimizer_wrapper, rand_state, energy_state):
        self.func_wrapper, self.energy_state, self.visit = func_wrapper, energy_state, visit_dist

    def run(self, step, temperature):
        s = self.energy_state
        VISITS[0](step, temperature)
        for x in MOVES[0](self.visit.lower, self.visit.upper):
            e = self.func_wrapper.fun(np.array(x))
            if e < s.current_energy:
                s.update_current(e, x)
                if e < s.ebest:
                    s.update_best(e, x, 0)


START, MOVES, VISITS = [None], [None], [None]
MODS = {'scipy': {}, 'scipy.stats': dict(truncnorm=TruncNorm), 'scipy.optimize': {},
        'scipy.optimize._dual_annealing': dict(EnergyState=EnergyState, ObjectiveFunWrapper=ObjectiveFunWrapper,
                                               StrategyChain=StrategyChain, VisitingDistribution=VisitingDistribution)}
_saved = {n: sys.modules.get(n) for n in MODS}
for _n, _a in MODS.items():
    sys.modules[_n] = types.ModuleType(_n)
    sys.modules[_n].__path__ = []
    sys.modules[_n].__dict__.update(_a)
from glompo.generators.annealing import AnnealingGenerator  # noqa: E402
from glompo.generators.peterbation import PerturbationGenerator  # noqa: E402
for _n, _m in _saved.items():
    if _m is None:
        del sys.modules[_n]
    else:
        sys.modules[_n] = _m


# ------------------------------------------------------------------------------------------------------- perturbation
def perturbation(ctx):
    b = ctx.pick(BOUNDS + [[(0.1, 0.7), (-0.3, 0.3), (-3, -1)]], 'bounds')
    where = ctx.pick((0.0, 0.3, 1.0, 'alternating'), 'centre')
    x0 = [lo + (hi - lo) * ((i % 2) if where == 'alternating' else where) for i, (lo, hi) in enumerate(b)]
    x0 = [min(max(c, lo), hi) for c, (lo, hi) in zip(x0, b)]
    scale = [ctx.pick((0.1, 0.7, 3.0), 'scale') for _ in b]
    form = ctx.pick((list, np.array), 'form')
    g = PerturbationGenerator(form(x0), form(b), form(scale))
    seen = []
    for k in range(2):
        zs = []

        def draw(lo, hi):
            z = ctx.pick(('low', 'high', 0.25), '')
            z = min(max({'low': lo, 'high': hi}.get(z, z), lo), hi)
            zs.append(z)
            return z
        DRAW[0] = draw
        v = within(ctx, g.generate(None), b, 'perturbed point')
        if v is None:
            return
        if ctx.true(len(zs) == len(b), 'draws', f'{len(zs)} draws for {len(b)} parameters'):
            want = [m + s * z for m, s, z in zip(x0, scale, zs)]
            ctx.true(near(v, want, b), 'perturbation', f'{v} for the draws {zs} around {x0} with deviations {scale}')
        seen.append(v)
        if len(b) > 1:
            break
    ctx.note(len(b), where)
    ctx.see(len(b), where, tuple(scale))


# ---------------------------------------------------------------------------------------------------------- annealing
def annealing(n_opts, values, calls, runs=6):
    def fn(ctx):
        b = ctx.pick(([(-1.5, 0.3)], [(0.1, 0.7), (-5, -4.999)]), 'bounds')
        m, best, _ = p_sel.state(ctx, b, n_opts, values, 1)
        level = ctx.pick((0.5, 3.0), 'values visited')
        evals = []

        def task(x):
            v = [float(i) for i in x]
            evals.append(v)
            ctx.true(all(lo <= i <= hi for i, (lo, hi) in zip(v, b)), 'bounds', f'evaluated at {v}')
            return level if len(evals) == 1 else level - 1e-3 * len(evals)
        n_start, n_run, moves = [0], [0], []

        def start(lower, upper):
            n_start[0] += 1
            return np.array([lo + (hi - lo) * (0.1 + 0.07 * (n_start[0] % 9)) for lo, hi in b])

        def visits(step, temperature):
            n_run[0] += 1
            heat.append((step, float(temperature)))
            if n_run[0] > 40:
                raise RuntimeError('annealed without end')

        def visited(lower, upper):
            m_ = ctx.pick(('stay', 'move', 'two'), 'chain') if len(moves) < runs else 'move'
            moves.append(m_)
            k = len(moves)
            pt = lambda f: [lo + (hi - lo) * f for lo, hi in b]
            return {'stay': [], 'move': [pt(0.013 * k)], 'two': [pt(0.5 + 0.011 * k), pt(0.9 - 0.012 * k)]}[m_]
        heat, ratio = [], ctx.pick((2e-5, 0.3), 'restart ratio')
        START[0], VISITS[0], MOVES[0] = start, visits, visited
        g = AnnealingGenerator(b, task, initial_temp=100.0, restart_temp_ratio=ratio, seed=1)
        last = None
        for i in range(calls):
            f0, l0, e0, s0 = m.f_counter, m.opt_log._f_counter, len(evals), n_start[0]
            moves0 = len(moves)
            x = g.generate(m)
            v = within(ctx, x, b, 'annealed point')
            if v is None:
                return
            chained = len(evals) - e0 - (n_start[0] - s0)
            ctx.true(chained <= m.f_counter - f0 <= len(evals) - e0, 'counted',
                     f'call {i}: {m.f_counter - f0} evaluations counted, {chained} were made by the chain')
            ctx.eq(m.opt_log._f_counter - l0, m.f_counter - f0, 'counted', f'call {i}: evaluations counted in the log')
            ctx.true(last is None or not near(v, last, b), 'repeated', f'call {i}: {v} again')
            made = moves[moves0:]
            if best and i == 0 and set(made) == {'stay'} and n_start[0] == s0:
                start_v = evals[0]
                want = list(best[1]) if best[0] < level else start_v
                ctx.true(near(v, want, b), 'state', f'call {i}: {v}, best seen is {best[1]} with {best[0]}, own state {start_v} with {level}')
            ctx.true(all(100 * ratio <= t <= 100.0 for _, t in heat), 'temperature', f'{heat}')
            if not isinstance(x, tuple):
                x[0] = b[0][0]  # an optimizer working on its starting point
                ctx.true(near([float(q) for q in g.state.current_location], v, b), 'aliased',
                         f'call {i}: state of the generator after the optimizer has changed its starting point')
            last = v
            ctx.see(i, tuple(moves), bool(best))
            if i and len(moves) - moves0 == 1 and n_start[0] == s0:
                ctx.true(heat[-1][1] < heat[-2][1], 'temperature', f'not decreased: {heat}')
        ctx.note(len(moves), n_start[0])
    return fn


def units(deep):
    return [SeqUnit('perturbation', perturbation),
            SeqUnit('annealing', annealing(1, (1.0, NAN, INF, -2.0), 2, 4 if not deep else 6)),
            SeqUnit('annealing-stuck', annealing(1, (1.0,), 1, 10 if deep else 6)),
            SeqUnit('annealing-two', annealing(2, (1.0, 5.0), 2 if not deep else 3, 3)),
            SeqUnit('annealing-cool', annealing(1, (1.0,), 8, 0))]


PROPS = {}  # see P25
