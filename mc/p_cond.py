"""Hunting and stopping conditions: combinations (P21), hunters (P22), checkers (P23)."""
import itertools
import math
import re
import warnings

import dill
import numpy as np

from .seq import SeqUnit, Stop
from .virt import *  # noqa

from glompo.common.namedtuples import IterationResult, Result
from glompo.convergence import (BaseChecker, KillsAfterConvergence, MaxFuncCalls, MaxKills, MaxOptsStarted, MaxSeconds,
                                NOptConverged, TargetCost)
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger
from glompo.hunters import (BaseHunter, BestUnmoving, EvaluationsUnmoving, LastPointsInvalid, MinFuncCalls,
                            ParameterDistance, StepSize, TimeAnnealing, TypeHunter, ValueAnnealing)
from glompo.optimizers.baseoptimizer import BaseOptimizer

NAN, INF = float('nan'), float('inf')


# ---------------------------------------------------------------------------------------------------------------- P21
class LeafC(BaseChecker):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag
        self.value = None
        self.calls = None

    def __call__(self, *args, **kwargs):
        self.calls.append((self.tag, args, kwargs))
        self.last_result = self.value
        return self.last_result


class LeafH(BaseHunter):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag
        self.value = None
        self.calls = None

    def __call__(self, *args, **kwargs):
        self.calls.append((self.tag, args, kwargs))
        self.last_result = self.value
        return self.last_result


def shapes(n):
    """ All binary trees with leaves 0..n-1 in order, as nested pairs. """
    def build(lo, hi):
        if hi - lo == 1:
            return [lo]
        return [(a, b) for m in range(lo + 1, hi) for a in build(lo, m) for b in build(m, hi)]
    return build(0, n)


def parse(text):
    """ '[a | \\n[b & \\nc]]' -> nested (op, left, right) / leaf text; None if it cannot be read. """
    s = text
    pos = 0

    def skip():
        nonlocal pos
        while pos < len(s) and s[pos] in ' \n\t':
            pos += 1

    def node():
        nonlocal pos
        skip()
        if s[pos] == '[':
            pos += 1
            a = node()
            skip()
            op = s[pos]
            assert op in '&|', op
            pos += 1
            b = node()
            skip()
            assert s[pos] == ']'
            pos += 1
            return (op, a, b)
        m = re.match(r'[^\[\]&|]+', s[pos:])
        pos += m.end()
        return m.group(0).strip()

    try:
        r = node()
        skip()
        assert pos == len(s)
        return r
    except Exception:
        return None


def combos(n, n_eval, kinds=(LeafC, LeafH)):
    def fn(ctx):
        kind = ctx.pick(kinds, 'kind')
        shape = ctx.pick(shapes(n), 'shape')
        leaves = [kind(i) for i in range(n)]
        calls = []
        for lf in leaves:
            lf.calls = calls
        ops = [ctx.pick('&|', 'op') for _ in range(n - 1)]
        it = iter(ops)

        def make(sh):
            if isinstance(sh, int):
                return leaves[sh], sh
            a, ra = make(sh[0])
            b, rb = make(sh[1])
            op = next(it)
            return (a & b if op == '&' else a | b), (op, ra, rb)

        tree, ref = make(shape)
        ctx.true(isinstance(tree, BaseChecker if kind is LeafC else BaseHunter), 'type',
                 f'the combination is a {type(tree)}')
        name = kind.__name__
        want_text = tr(ref, lambda i: f'{name}(tag={i})')
        ctx.eq(parse(str(tree)), want_text, 'text', 'the text of the combination')
        ctx.eq([lf.tag for lf in tree], list(range(n)), 'iter', 'iteration over the parts')
        args = (object(),) if kind is LeafC else (object(), 3, 4)

        def show(lasts, when):
            got = parse(tree.str_with_result())
            ctx.eq(got, tr(ref, lambda i: f'{name}(tag={i}) = {lasts[i]}'), 'report', f'the report {when}')

        show([None] * n, 'before any evaluation')
        for k in range(n_eval):
            vals = [ctx.pick((False, True), 'v') for _ in range(n)]
            for lf, v in zip(leaves, vals):
                lf.value = v
            del calls[:]
            got = tree(*args)
            want, asked = ev(ref, vals)
            ctx.true(bool(got) is want, 'value', f'evaluation {k}: {got!r} for {vals} of {ref}')
            ctx.true(tree.last_result == got, 'last', f'last_result is {tree.last_result!r} after {got!r}')
            ctx.eq([c[0] for c in calls], asked, 'lazy', f'evaluation {k} of {ref} with {vals}: parts evaluated')
            ctx.true(all(c[1] == args and not c[2] for c in calls), 'args', 'parts are called with other arguments')
            lasts = [vals[i] if i in asked else None for i in range(n)]
            show(lasts, f'after evaluation {k} of {ref} with {vals}')
            ctx.eq([lf.last_result for lf in tree], lasts, 'last-parts', f'results kept by the parts, evaluation {k}')
            ctx.eq(parse(str(tree)), want_text, 'text', 'the text after an evaluation')
            ctx.see(ref, lasts)
        if n > 1:
            tree.reset()
            show([None] * n, 'after a reset')
    return fn


def tr(ref, leaf):
    if isinstance(ref, int):
        return leaf(ref)
    return (ref[0], tr(ref[1], leaf), tr(ref[2], leaf))


def ev(ref, vals):
    if isinstance(ref, int):
        return vals[ref], [ref]
    a, ca = ev(ref[1], vals)
    if (ref[0] == '&') != a:
        return a, ca
    b, cb = ev(ref[2], vals)
    return b, ca + cb


def wrong_parts(ctx):
    """ Combining with something that is no condition, or evaluating the real conditions in combination. """
    kind = ctx.pick((LeafC, LeafH), 'kind')
    other = ctx.pick((1, None, 'x', True, lambda *a: True), 'other')
    op = ctx.pick('&|', 'op')
    lf = kind(0)
    try:
        r = lf & other if op == '&' else lf | other
    except TypeError:
        return
    ctx.fail('accepted', f'{other!r} was accepted as a part: {r!r}')


def real_combo(ctx):
    """ Combinations of the real conditions are evaluated against a real manager / log. """
    if ctx.flag('hunters'):
        log = make_log({1: [5, 4], 2: ctx.pick(([9], [9, 9], [9, 9, 9], [NAN, NAN]), 'victim')})
        parts = [MinFuncCalls(2), BestUnmoving(1), LastPointsInvalid(1), TypeHunter(OptA)]
        args = (log, 1, 2)
    else:
        m = manager(f_counter=ctx.pick((0, 3), 'f'), o_counter=ctx.pick((1, 4), 'o'), conv_counter=ctx.pick((0, 2), 'c'))
        parts = [MaxFuncCalls(3), MaxOptsStarted(4), NOptConverged(2), MaxKills(1)]
        args = (m,)
    a, b, c = ctx.pick(list(itertools.permutations(range(4), 3)), 'parts')
    ops = ctx.pick(('&&', '&|', '|&', '||'), 'ops')
    left = ctx.flag('left')
    A, B, C = parts[a], parts[b], parts[c]
    va, vb, vc = [bool(p(*args)) for p in (A, B, C)]
    o1, o2 = ops

    def f(o, x, y):
        return (x and y) if o == '&' else (x or y)

    def g(o, x, y):
        return x & y if o == '&' else x | y

    if left:
        tree, want = g(o2, g(o1, A, B), C), f(o2, f(o1, va, vb), vc)
    else:
        tree, want = g(o1, A, g(o2, B, C)), f(o1, va, f(o2, vb, vc))
    ctx.true(bool(tree(*args)) is want, 'value', f'{tree.str_with_result()} for {va, vb, vc}')


# ---------------------------------------------------------------------------------------------------------------- P22
class OptA(BaseOptimizer):
    def minimize(self, *a, **k):
        pass

    def callstop(self, *a):
        pass


class OptB(OptA):
    pass


def make_log(hist, pts=None, types=None):
    """ hist: {opt_id: [fx]}, pts: {opt_id: [x]}; recorded alternating. """
    log = BaseLogger(False)
    for o in sorted(hist):
        log.add_optimizer(o, (types or {}).get(o, 'OptA'), None)
    longest = max([len(v) for v in hist.values()] + [0])
    for k in range(longest):
        for o in sorted(hist):
            put(log, o, hist[o], pts, k)
    return log


def put(log, o, row, pts, k):
    if k < len(row):
        if not log.has_iter_history(o):
            log.add_iter_history(o)
        x = (pts or {}).get(o)
        log.put_iteration(IterationResult(o, x[k] if x else [float(k), float(o)], row[k], []))


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def verdict(ctx, h, args, want, what):
    """ want None: either answer. """
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = h(*args)
    if want is not None:
        ctx.true(bool(got) is bool(want), 'verdict', f'{h} says {got!r} for {what}')
    ctx.true(h.last_result is got or h.last_result == got, 'last', f'{h} keeps {h.last_result!r} after saying {got!r}')
    ctx.true(h.str_with_result().startswith(str(h)) and str(bool(got)) in h.str_with_result()[len(str(h)):], 'report',
             f'{h.str_with_result()!r} after {got!r}')
    ctx.true(str(h).startswith(type(h).__name__ + '('), 'name', str(h))
    return got


def le(a, b):
    """ a <= b, None where rounding decides. """
    if a != a or b != b:
        return False
    if a == b:
        return True
    if close(a, b):
        return None
    return a <= b


def ref_best_unmoving(v, calls, tol):
    if len(v) <= calls:
        return False
    old = [i for i in v[:-calls] if i == i]
    new = [i for i in v if i == i]
    if not old:
        return False
    old, new = min(old), min(new)
    return le(abs(new - old) if not (math.isinf(new) and new == old) else NAN, abs(old * tol))


def ref_evals_unmoving(v, calls, tol):
    if len(v) < calls:
        return False
    last = v[-calls:]
    if not all(map(math.isfinite, last)):
        return False
    m = sum(last) / len(last)
    std = math.sqrt(sum((i - m) ** 2 for i in last) / len(last))
    if all(i == last[0] for i in last):
        std = 0.0
    return le(std, abs(v[-1] * tol))


def grow(alphabet, depth, test, others=({1: [3.0, 1.0, 7.0]},)):
    """ Extends the history of the victim (optimizer 2) value by value and applies `test` each time. """
    def fn(ctx):
        other = ctx.pick(others, 'others')
        log = make_log({**other, 2: []})
        row = []
        test(ctx, log, row, other)
        for _ in range(depth):
            row.append(ctx.pick(alphabet, 'fx'))
            put(log, 2, row, None, len(row) - 1)
            test(ctx, log, row, other)
            ctx.see(repr(row), repr(other))
    return fn


def t_best(ctx, log, row, other):
    if row:
        for calls in (1, 2, 3):
            for tol in (0, 0.1, 0.5):
                verdict(ctx, BestUnmoving(calls, tol), (log, 1, 2), ref_best_unmoving(row, calls, tol), f'{row}')
        # only the history of the victim counts
        verdict(ctx, BestUnmoving(1), (log, 2, 1), ref_best_unmoving(other[1], 1, 0), f'{other[1]} as the victim')


def t_evals(ctx, log, row, other):
    if row:
        for calls in (1, 2, 3):
            for tol in (0, 0.1, 0.6):
                verdict(ctx, EvaluationsUnmoving(calls, tol), (log, 1, 2), ref_evals_unmoving(row, calls, tol), f'{row}')
        verdict(ctx, EvaluationsUnmoving(2, 0.6), (log, 2, 1), ref_evals_unmoving(other[1], 2, 0.6),
                f'{other[1]} as the victim')


def t_points(ctx, log, row, other):
    if row:
        for n in (1, 2, 3):
            want = len(row) >= n and not any(map(math.isfinite, row[-n:]))
            verdict(ctx, LastPointsInvalid(n), (log, 1, 2), want, f'{row}')
        verdict(ctx, LastPointsInvalid(), (log, 1, 2), not math.isfinite(row[-1]), f'{row} (default)')
        verdict(ctx, LastPointsInvalid(1), (log, 2, 1), not math.isfinite(other[1][-1]), f'{other[1]} as the victim')
    for n in (1, 2, 3, 5):
        verdict(ctx, MinFuncCalls(n), (log, 1, 2), len(row) >= n, f'{len(row)} evaluations')
        verdict(ctx, MinFuncCalls(n), (log, 2, 1), len(other[1]) >= n, f'{len(other[1])} evaluations as the victim')


BOUNDS = [(0, 3), (1, 5)]  # the greatest distance is 5
PTS = [[0.0, 1.0], [3.0, 1.0], [3.0, 5.0], [0.3, 1.4], [3.0, 2.0]]


def dist(a, b):
    return math.sqrt(sum((i - j) ** 2 for i, j in zip(a, b)))


def par_dist(ctx):
    """ Positions of hunter, victim and a bystander which may have no point. """
    kind = ctx.pick((list, np.array, tuple), 'type')
    nh, nv = ctx.pick((1, 2), 'nh'), ctx.pick((1, 2), 'nv')
    ph = [PTS[0]] * (nh - 1) + [ctx.pick(PTS, 'hunter')]
    pv = [PTS[2]] * (nv - 1) + [ctx.pick(PTS, 'victim')]
    nb = ctx.pick((0, 1), 'nb')
    pb = [ctx.pick(PTS, 'bystander')] * nb
    h, v, b = ctx.pick(((1, 2, 3), (3, 1, 2), (2, 3, 1)), 'ids')
    log = make_log({h: [1.0] * nh, v: [2.0] * nv, b: [3.0] * nb},
                   {h: [kind(p) for p in ph], v: [kind(p) for p in pv], b: [kind(p) for p in pb]})
    for rel in (0.1, 0.2, 0.5, 0.79, 1):
        dh = le(dist(ph[-1], pv[-1]), 5 * rel)
        db = le(dist(pb[-1], pv[-1]), 5 * rel) if nb else False
        verdict(ctx, ParameterDistance(BOUNDS, rel), (log, h, v), dh, f'hunter {ph}, victim {pv}, {rel}')
        both = True if dh or db else None if dh is None or db is None else False
        verdict(ctx, ParameterDistance(BOUNDS, rel, True), (log, h, v), both,
                f'hunter {ph}, victim {pv}, bystander {pb}, {rel}, all')
        verdict(ctx, ParameterDistance(BOUNDS, rel, test_all=False), (log, h, v), dh, f'{ph} {pv} {rel}')
    ctx.see(ph, pv, pb, h)


def step_size(depth):
    def fn(ctx):
        kind = ctx.pick((list, np.array), 'type')
        hpts = [kind(p) for p in (PTS[0], PTS[0], PTS[0])]
        log = make_log({1: [1.0] * 3, 2: []}, {1: hpts})
        pts = []
        for _ in range(depth):
            pts.append(ctx.pick(PTS, 'x'))
            put(log, 2, [2.0] * len(pts), {2: [kind(p) for p in pts]}, len(pts) - 1)
            for calls in (2, 3, 4):
                for tol in (0.05, 0.15, 0.35, 0.7):
                    last = pts[-calls:]
                    want = False
                    if len(last) >= calls:
                        steps = [dist(a, b) for a, b in zip(last, last[1:])]
                        mean = sum(steps) / len(steps)
                        want = None if close(mean, 5 * tol) else mean < 5 * tol
                    verdict(ctx, StepSize(BOUNDS, calls, tol), (log, 1, 2), want, f'{pts}, calls {calls}, tol {tol}')
            ctx.see(pts)
        h = StepSize(BOUNDS, 2)
        mean = dist(pts[-2], pts[-1])
        verdict(ctx, h, (log, 1, 2), None if close(mean, 0.25) else mean < 0.25, f'{pts} (default tolerance)')
    return fn


class Draw:
    """ Replaces the sources of uniform random numbers: every draw is the same quantile of its range. """

    def __init__(self, q):
        self.q = q
        self.ranges = []

    def uniform(self, a=0.0, b=1.0, size=None):
        self.ranges.append((a, b))
        r = a + (b - a) * self.q
        return r if size is None else np.full(size, r)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def __enter__(self):
        import random
        self.saved = [(m, n, getattr(m, n)) for m, n in ((random, 'random'), (random, 'uniform'),
                                                          (np.random, 'uniform'), (np.random, 'random'),
                                                          (np.random, 'random_sample'), (np.random, 'rand'))]
        for m, n, _ in self.saved:
            setattr(m, n, self.uniform if n == 'uniform' else self.random)
        return self

    def __exit__(self, *exc):
        for m, n, f in self.saved:
            setattr(m, n, f)


QUANT = [0.0, 0.05, 0.2, 0.35, 0.45, 0.55, 0.65, 0.8, 0.95, 0.999999]


def time_annealing(ctx):
    nh, nv = ctx.pick(range(1, 7), 'hunter'), ctx.pick(range(1, 7), 'victim')
    crit = ctx.pick((0.5, 1, 1.5, 3), 'crit')
    h, v = ctx.pick(((1, 2), (2, 1)), 'ids')
    log = make_log({h: [5.0] * nh, v: [6.0] * nv, 3: [1.0] * 4})
    ratio = nh / nv
    kills = []
    for q in QUANT:
        with Draw(q) as d:
            got = verdict(ctx, TimeAnnealing(crit), (log, h, v), None, '')
        kills.append(bool(got))
        if ratio >= crit and not close(ratio, crit * q):
            ctx.true(not got, 'guaranteed', f'{nh}/{nv} >= {crit}: killed')
    # the share of the draws which kill is P(draw > ratio), whatever the direction of the draw
    want = sum(crit * q > ratio for q in QUANT)
    unclear = sum(close(crit * q, ratio) for q in QUANT)
    want2 = sum(crit * (1 - q) > ratio for q in QUANT)
    unclear2 = sum(close(crit * (1 - q), ratio) for q in QUANT)
    n = sum(kills)
    ctx.true(want <= n <= want + unclear or want2 - 1 <= n <= want2 + unclear2 + 1, 'chance',
             f'{nh}/{nv} against {crit}: killed for {n} of the {len(QUANT)} draws, expected {want}')
    ctx.see(nh, nv, crit)


def value_annealing(ctx):
    fh = ctx.pick((0.0, 1.0, 2.0, -1.0, -2.0, 100.0), 'hunter')
    fv = ctx.pick((-2.0, -1.0, -0.5, 0.0, 1.0, 1.5, 2.0, 3.0, 4.0, 100.0, 1e6), 'victim')
    med = ctx.pick((None, 0.1, 0.3, 0.5, 0.9), 'med')
    tail = ctx.pick(([], [1e9], [NAN]), 'tail')
    log = make_log({1: [fh] + tail, 2: [fv] + tail, 3: [-50.0]})
    never = fh == 0 or fv <= fh
    m = 0.5 if med is None else med
    p_kill = 0.0 if never else 1 - (1 - m) ** abs((fv - fh) / fh)
    n = 0
    for q in QUANT:
        with Draw(q):
            hunter = ValueAnnealing() if med is None else ValueAnnealing(med)
            got = verdict(ctx, hunter, (log, 1, 2), False if never else None, f'{fh} against {fv}')
        n += bool(got)
    if not never:
        up = sum(q > 1 - p_kill for q in QUANT)
        down = sum(q < p_kill for q in QUANT)
        unclear = sum(close(q, p_kill) or close(q, 1 - p_kill) for q in QUANT)
        lo, hi = min(up, down) - unclear, max(up, down) + unclear
        ctx.true(lo <= n <= hi, 'chance', f'victim {fv}, hunter {fh}, med_kill_chance {m}: killed for {n} of '
                                          f'{len(QUANT)} draws, the documented probability is {p_kill:.3f}')
    ctx.see(fh, fv, med)


def type_hunter(ctx):
    t = {1: ctx.pick(('OptA', 'OptB'), 't1'), 2: ctx.pick(('OptA', 'OptB', 'OptAB', 'opta'), 't2')}
    log = make_log({1: [1.0], 2: [2.0]}, types=t)
    cls = ctx.pick((OptA, OptB), 'cls')
    h, v = ctx.pick(((1, 2), (2, 1)), 'ids')
    verdict(ctx, TypeHunter(cls), (log, h, v), t[v] == cls.__name__, f'{t}')


def bad_hunters(ctx):
    f = ctx.pick((
        lambda: MinFuncCalls(0), lambda: MinFuncCalls(-1), lambda: MinFuncCalls(2.5), lambda: TypeHunter(int),
        lambda: ParameterDistance(BOUNDS, 0), lambda: ParameterDistance(BOUNDS, -0.1),
        lambda: ParameterDistance(BOUNDS, 'x'), lambda: TimeAnnealing(0), lambda: TimeAnnealing(-1),
        lambda: TimeAnnealing('x'), lambda: ValueAnnealing(0), lambda: ValueAnnealing(1), lambda: ValueAnnealing(1.5),
        lambda: ValueAnnealing(-0.5)), 'case')
    ctx.raises((ValueError, TypeError, AssertionError), f, 'accepted', 'an invalid setting')


# ---------------------------------------------------------------------------------------------------------------- P23
def manager(**attrs):
    m = GloMPOManager()
    m.result = Result(None, None, None, None)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def pristine(ctx):
    """ Before a run, on a manager which has not been set up. """
    checks = [(MaxFuncCalls(1), False), (MaxFuncCalls(0), True), (MaxOptsStarted(1), False), (NOptConverged(1), False),
              (MaxKills(1), False), (MaxKills(0), True), (KillsAfterConvergence(0, 1), False),
              (KillsAfterConvergence(0, 0), True), (TargetCost(0), False), (MaxSeconds(session_max=1), False),
              (MaxSeconds(overall_max=1), False)]
    for c, want in checks:
        verdict(ctx, c, (manager(),), want, 'a fresh manager')


COUNT = range(0, 5)


def counters(ctx):
    f, o, c = ctx.pick(COUNT, 'f'), ctx.pick(COUNT, 'o'), ctx.pick(COUNT, 'c')
    k = ctx.pick(range(0, 4), 'k')
    m = manager(f_counter=f, o_counter=o, conv_counter=c, hunt_victims={i + 2: 1.0 * i for i in range(k)},
                hunt_counter=ctx.pick((0, 9), 'hunts'))
    for n in (0, 1, 2, 3):
        what = f'f={f} o={o} conv={c} kills={k}, limit {n}'
        verdict(ctx, MaxFuncCalls(n), (m,), f >= n, what)
        verdict(ctx, MaxOptsStarted(n), (m,), o >= n, what)
        verdict(ctx, NOptConverged(n), (m,), c >= n, what)
        verdict(ctx, MaxKills(n), (m,), k >= n, what)
    ctx.see(f, o, c, k)


def target(ctx):
    fx = ctx.pick((None, INF, -INF, NAN, -3.0, -2.5, -2.0, -1.0, 0.0, 1e-7, 1.0, 2.0, 2.5, 3.0), 'fx')
    m = manager(result=Result([0.0], fx, {}, {}))
    for t in (-2.0, 0.0, 2.0):
        for atol in (0, 0.5, 3):
            verdict(ctx, TargetCost(t, atol), (m,), fx is not None and fx <= t + atol, f'fx={fx} target={t} atol={atol}')
        verdict(ctx, TargetCost(t), (m,), fx is not None and fx <= t + 1e-6, f'fx={fx} target={t}')


def kac(depth):
    def fn(ctx):
        nk, nc = ctx.pick((0, 1, 2), 'n_killed'), ctx.pick((0, 1, 2), 'n_converged')
        pre = ctx.pick((0, 1), 'kills before')
        chk = KillsAfterConvergence(nk, nc)
        conv, kills = 0, {i + 50: 0.0 for i in range(pre)}
        base = None
        for i in range(depth):
            op = ctx.pick(('idle', 'conv', 'kill', 'copy'), 'op')
            if op == 'conv':
                conv += 1
            elif op == 'kill':
                kills[i + 1] = 1.0
            elif op == 'copy':
                chk = dill.loads(dill.dumps(chk))
            if base is None and conv >= nc:
                base = len(kills) - (op == 'kill' and conv >= nc and False)
            want = base is not None and len(kills) - base >= nk
            verdict(ctx, chk, (manager(conv_counter=conv, hunt_victims=dict(kills)),), want,
                    f'{len(kills)} kills ({base} before), {conv} converged')
            ctx.see(nk, nc, conv, len(kills), base)
    return fn


def seconds(ctx):
    """ Session and overall time, including times used before a restart. """
    w = ctx.w
    used = ctx.pick((0, 2.0, 7.0), 'used')
    started = ctx.flag('started')
    m = manager(t_used=used, t_start=None)
    chk = {(k, n): MaxSeconds(**{k: n}) for k in ('session_max', 'overall_max') for n in (1, 4, 8)}
    w.sleep(3)
    if started:
        m.t_start = w.now
    t0 = w.now
    for _ in range(3):
        el = w.now - t0 if started else 0
        for (k, n), c in chk.items():
            t = el + (used if k == 'overall_max' else 0)
            verdict(ctx, c, (m,), None if close(t, n) and t != n else t >= n - 1e-9, f'{t} s, {k}={n}')
        w.sleep(ctx.pick((0.5, 2.0, 6.0), 'dt'))
        ctx.see(used, started, w.now - t0)


def bad_checkers(ctx):
    f = ctx.pick((lambda: MaxSeconds(), lambda: MaxSeconds(session_max=1, overall_max=1), lambda: MaxSeconds(5)), 'case')
    ctx.raises((ValueError, TypeError, AssertionError), f, 'accepted', 'an invalid setting')


def u21(tier):
    t = tier == 'thorough'
    us = [SeqUnit('one', combos(1, 3)), SeqUnit('two', combos(2, 3)), SeqUnit('three', combos(3, 2)),
          SeqUnit('four', combos(4, 2 if t else 1)), SeqUnit('wrong', wrong_parts), SeqUnit('real', real_combo)]
    if t:
        us += [SeqUnit('three-again', combos(3, 3)), SeqUnit('five', combos(5, 1))]
    return us


ALPHA = (0.0, 1.0, 2.0, -1.0, INF, NAN)
ALPHA2 = (0.0, 1.0, 1.05, 2.0, -1.0, -1.02, INF, -INF, NAN)


def u22(tier):
    t = tier == 'thorough'
    a, d = (ALPHA2, 5) if t else (ALPHA, 4)
    oth = ({1: [3.0, 1.0, 7.0]}, {1: [NAN]}, {1: [2.0, 2.0], 3: [9.0, 9.0]})
    return [SeqUnit('best', grow(a, d, t_best)), SeqUnit('evals', grow(a, d, t_evals)),
            SeqUnit('best-short', grow(ALPHA2, 3, t_best, oth)), SeqUnit('evals-short', grow(ALPHA2, 3, t_evals, oth)),
            SeqUnit('points', grow((1.0, INF, -INF, NAN), 5 if t else 4, t_points, oth)),
            SeqUnit('distance', par_dist), SeqUnit('steps', step_size(5 if t else 4)),
            SeqUnit('time-annealing', time_annealing), SeqUnit('value-annealing', value_annealing),
            SeqUnit('type', type_hunter), SeqUnit('bad', bad_hunters)]


def u23(tier):
    t = tier == 'thorough'
    return [SeqUnit('pristine', pristine), SeqUnit('counters', counters), SeqUnit('target', target),
            SeqUnit('kills-after', kac(7 if t else 5)), SeqUnit('seconds', seconds), SeqUnit('bad', bad_checkers)]


PROPS = {
    'P21': dict(units=u21),
    'P22': dict(units=u22),
    'P23': dict(units=u23),
}
