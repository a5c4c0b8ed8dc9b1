"""The benchmark functions (P37): the documented formula and minimum at every point of a lattice of the domain."""
import itertools
import math
import time
import warnings
from functools import reduce

import numpy as np

from .seq import SeqUnit

import glompo.benchmark_fncs as B

PI = math.pi
cos, sin, exp, sqrt = math.cos, math.sin, math.exp, math.sqrt


def prod(it):
    return reduce(lambda a, b: a * b, it, 1.0)


def ackley(x, a=20, b=0.2, c=2 * PI):
    n = len(x)
    return (-a * exp(-b * sqrt(sum(v * v for v in x) / n)) - exp(sum(cos(c * v) for v in x) / n)) + a + math.e


def langermann(x):
    t = 0.0
    for a, b, c in zip((3, 5, 2, 1, 7), (5, 2, 1, 4, 9), (1, 2, 5, 2, 3)):
        d = (x[0] - a) ** 2 + (x[1] - b) ** 2
        t -= c * cos(PI * d) / exp(d / PI)
    return t


def levy(x):
    w = [1 + (v - 1) / 4 for v in x]
    return (sin(PI * w[0]) ** 2 + sum((v - 1) ** 2 * (1 + 10 * sin(PI * v + 1) ** 2) for v in w[:-1])
            + (w[-1] - 1) ** 2 * (1 + sin(2 * PI * w[-1]) ** 2))


def rana(x):
    t = 0.0
    for v in x:
        m, p = sqrt(abs(x[0] - v + 1)), sqrt(abs(x[0] + v + 1))
        t += v * sin(m) * cos(p) + (x[0] + 1) * sin(p) * cos(m)
    return t


SHEKEL = [((4, 4, 4, 4), 1), ((1, 1, 1, 1), 2), ((8, 8, 8, 8), 2), ((6, 6, 6, 6), 4), ((3, 7, 3, 7), None),
          ((2, 9, 2, 9), 6), ((5, 5, 3, 3), 3), ((8, 1, 8, 1), 7), ((6, 2, 6, 2), 5), ((7, 3.6, 7, 3.6), 5)]


def shekel(m):
    def f(x):
        t = 0.0
        for a, c in SHEKEL[:m]:
            c = c if c is not None else (6 if m == 5 else 4)
            t -= 1 / (0.1 * c + sum((v - w) ** 2 for v, w in zip(x, a)))
        return t
    return f


def shubert(style):
    def f(x):
        one = [sum(j * (sin if style == 3 else cos)((j + 1) * v + j) for j in range(1, 6)) for v in x]
        return prod(one) if style == 1 else sum(one)
    return f


def shifted(f, by):
    return lambda x: f(x) + by(len(x))


class Case:
    """ What the documentation says. """

    def __init__(self, cls, dims, f, bounds, min_x=None, min_fx=None, tol=1e-9, low=True, kw=None, give_dims=True,
                 warn_x=False, warn_fx=False):
        self.cls, self.dims, self.f, self.bounds = cls, dims, f, bounds
        self.min_x, self.min_fx, self.tol, self.low, self.kw = min_x, min_fx, tol, low, kw or {}
        self.give_dims, self.warn_x, self.warn_fx = give_dims, warn_x, warn_fx

    def __repr__(self):
        return f'{self.cls.__name__}({self.kw or ""})'


ALL = (1, 2, 3)
same = lambda v: lambda n: [v] * n
const = lambda v: lambda n: v
per = lambda v: lambda n: v * n
CASES = [
    Case(B.Ackley, ALL, ackley, (-32.768, 32.768), same(0), const(0)),
    Case(B.Ackley, ALL, lambda x: ackley(x, 10, 0.5, 3.0), (-32.768, 32.768), same(0), const(0),
         kw=dict(a=10, b=0.5, c=3.0)),
    Case(B.Alpine01, ALL, lambda x: sum(abs(v * sin(v) + 0.1 * v) for v in x), (-10, 10), same(0), const(0)),
    Case(B.Alpine02, ALL, lambda x: -prod(sqrt(v) * sin(v) for v in x), (0, 10), same(7.917), lambda n: -2.808 ** n,
         tol=1e-2),
    Case(B.Easom, (2,), lambda x: -cos(x[0]) * cos(x[1]) * exp(-(x[0] - PI) ** 2 - (x[1] - PI) ** 2), (-100, 100),
         same(PI), const(-1), give_dims=False),
    Case(B.Easom, (2,), lambda x: 1 - cos(x[0]) * cos(x[1]) * exp(-(x[0] - PI) ** 2 - (x[1] - PI) ** 2), (-100, 100),
         same(PI), const(0), kw=dict(shift_positive=True), give_dims=False),
    Case(B.Griewank, ALL, lambda x: sum(v * v for v in x) / 4000 - prod(cos(v / sqrt(i)) for i, v in enumerate(x, 1)) + 1,
         (-600, 600), same(0), const(0)),
    Case(B.Langermann, (2,), langermann, (0, 10), lambda n: [2.00299219, 1.006096], const(-5.1621259), tol=1e-4,
         give_dims=False),
    Case(B.Langermann, (2,), lambda x: langermann(x) + 5.2, (0, 10), lambda n: [2.00299219, 1.006096], const(0.0378741),
         tol=1e-4, kw=dict(shift_positive=True), give_dims=False),
    Case(B.Levy, ALL, levy, (-10, 10), same(1), const(0)),
    Case(B.Michalewicz, ALL, lambda x: -sum(sin(v) * sin(i * v * v / PI) ** 20 for i, v in enumerate(x, 1)), (0, PI),
         None, lambda n: {2: -1.8013}.get(n), tol=1e-4, warn_x=True),
    Case(B.Michalewicz, ALL, lambda x: -sum(sin(v) * sin(i * v * v / PI) ** 6 for i, v in enumerate(x, 1)), (0, PI),
         None, None, low=False, kw=dict(m=3), warn_x=True),
    Case(B.Qing, ALL, lambda x: sum((v * v - i) ** 2 for i, v in enumerate(x, 1)), (-500, 500),
         lambda n: [sqrt(i) for i in range(1, n + 1)], const(0), warn_x=True),
    Case(B.Rana, ALL, rana, (-500.000001, 500.000001), same(-500),
         per(-464.27392770239135), low=False),
    Case(B.Rastrigin, ALL, lambda x: 10 * len(x) + sum(v * v - 10 * cos(2 * PI * v) for v in x), (-5.12, 5.12), same(0),
         const(0)),
    Case(B.Rosenbrock, ALL, lambda x: sum(100 * (b - a * a) ** 2 + (a - 1) ** 2 for a, b in zip(x, x[1:])),
         (-2.048, 2.048), same(1), const(0)),
    Case(B.Schwefel, ALL, lambda x: -sum(v * sin(sqrt(abs(v))) for v in x), (-500, 500), same(420.9687), per(-418.9829),
         tol=1e-3),
    Case(B.Schwefel, ALL, lambda x: 418.9830 * len(x) - sum(v * sin(sqrt(abs(v))) for v in x), (-500, 500), same(420.9687),
         per(0.0001), tol=1e-3, kw=dict(shift_positive=True)),
    *[Case(B.Shekel, (1, 2, 3, 4), shekel(m), (-32.768, 32.768), same(4), None, low=False, kw=dict(m=m), warn_fx=True)
      for m in (5, 7, 10)],
    Case(B.Shekel, (2, 4), shifted(shekel(7), const(12)), (-32.768, 32.768), same(4), None, low=False,
         kw=dict(m=7, shift_positive=True), warn_fx=True),
    *[Case(B.Shubert, (1, 2), shubert(k), (-10, 10), None, lambda n, v=v: v if n == 2 else None, tol=1e-3, warn_x=True,
           kw=dict(style=k)) for k, v in ((1, -186.7309), (3, -29.675900), (4, -25.741771))],
    *[Case(B.Shubert, (2,), shifted(shubert(k), const(v)), (-10, 10), None, const(0), tol=1e-3, warn_x=True,
           kw=dict(style=k, shift_positive=True)) for k, v in ((1, 186.731), (3, 29.675901), (4, 25.741771))],
    Case(B.StyblinskiTang, ALL, lambda x: 0.5 * sum(v ** 4 - 16 * v * v + 5 * v for v in x), (-500, 500),
         same(-2.903534018185960), per(-39.16616570377142)),
    Case(B.Trigonometric, ALL, lambda x: 1 + sum(8 * sin(7 * (v - 0.9) ** 2) ** 2 + 6 * sin(14 * (v - 0.9) ** 2) ** 2
                                                 + (v - 0.9) ** 2 for v in x), (-500, 500), same(0.9), const(1)),
    Case(B.Vincent, ALL, lambda x: -sum(sin(10 * math.log(v)) for v in x), (0.25, 10), same(7.70628098), per(-1)),
    Case(B.ZeroSum, ALL, lambda x: 0 if sum(x) == 0 else 1 + sqrt(10000 * abs(sum(x))), (-10, 10), None, const(0)),
]


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def asked(ctx, fn, x, kind, delay, key='value'):
    """ One evaluation: the time it takes, the point left alone. """
    given = {'list': list, 'tuple': tuple, 'array': lambda v: np.array(v, dtype=float)}[kind](x)
    t0 = time.time()
    v = fn(given)
    ctx.true(abs(time.time() - t0 - delay) < 1e-2, 'delay', f'took {time.time() - t0} s instead of {delay} s')
    ctx.true([float(i) for i in given] == [float(i) for i in x], 'changed', f'{x} became {given}')
    ctx.true(np.ndim(v) == 0, key, f'{v!r} is not a number')
    return float(v)


def lattice(lo, hi, k):
    return [lo + (hi - lo) * i / (k - 1) for i in range(k)]


def quietly(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        return fn(), len(ws) > 0


def formula(cases, pts, kinds):
    def fn(ctx):
        c = ctx.pick(cases, 'function')
        n = ctx.pick(c.dims, 'dims')
        delay = ctx.pick((0, 2.5), 'delay') if n == c.dims[0] else 0
        kw = dict(c.kw, delay=delay) if delay else dict(c.kw)
        f = c.cls(n, **kw) if c.give_dims else c.cls(**kw)
        kind = ctx.pick(kinds, 'kind')
        if n == c.dims[0]:
            ctx.eq(f.dims, n, 'dims', 'dims')
            ctx.eq(f.delay, delay, 'dims', 'delay')
            ctx.eq([tuple(float(v) for v in b) for b in f.bounds], [tuple(float(v) for v in c.bounds)] * n, 'bounds', 'bounds')
        ctx.eq(len(f.bounds), n, 'bounds', 'number of bounds')
        extra = c.min_x(n) if c.min_x else None
        x = []
        for i in range(n):
            l = lattice(*c.bounds, max(3, pts // n ** 2))
            x.append(ctx.pick(l + ([extra[i]] if extra else []) + [0.3 * c.bounds[0] + 0.7 * c.bounds[1]], f'x{i}'))
        v, want = asked(ctx, f, x, kind, delay), c.f(x)
        ctx.true(close(v, want), 'value', f'{v} instead of {want}')
        low = c.min_fx(n) if c.min_fx else None
        if low is not None and c.low:
            ctx.true(v >= low - c.tol * (1 + abs(low)), 'lower', f'{v} is below the minimum {low}')
        ctx.note(round(v, 6))
    return fn


def minimum(ctx):
    c = ctx.pick(CASES, 'function')
    n = ctx.pick(c.dims, 'dims')
    f = c.cls(n, **c.kw) if c.give_dims else c.cls(**c.kw)
    (mx, wx), (mf, wf) = quietly(lambda: f.min_x), quietly(lambda: f.min_fx)
    ctx.true(wx or not c.warn_x, 'warning', 'not told that the place is not (the only) one')
    ctx.true(wf or not c.warn_fx, 'warning', 'not told that the value is not certain')
    low = c.min_fx(n) if c.min_fx else None
    if low is not None:
        ctx.true(mf is not None and abs(mf - low) <= c.tol * (1 + abs(low)), 'minimum', f'min_fx {mf} instead of {low}')
    if c.cls is B.ZeroSum:
        ctx.eq((float(np.sum(mx)), len(mx)), (0.0, n), 'minimum', 'sum of min_x')
    elif c.min_x:
        ctx.true(len(mx) == n and np.allclose(mx, c.min_x(n), 0, 1e-6), 'minimum', f'min_x {mx} instead of {c.min_x(n)}')
    if c.min_x or c.cls is B.ZeroSum:
        ctx.true(all(a <= v <= b for v, (a, b) in zip(mx, f.bounds)), 'minimum', f'{mx} is out of bounds')
        if mf is not None and not c.warn_fx:
            ctx.true(abs(f(mx) - mf) <= c.tol * (1 + abs(mf)), 'minimum', f'value {f(mx)} at the minimum of {mf}')
    ctx.note(mf)


class Draws:
    """ Random numbers by choice, as a part of their interval. """

    def __init__(self, ctx, parts):
        self.ctx, self.parts, self.on = ctx, parts, []

    def draw(self, n=None):
        u = self.ctx.pick(self.parts, 'draw')
        if n is None:
            return u
        n = int(np.prod(n))
        return np.array([(u + 0.37 * k) % 1.0 for k in range(n)])

    def uniform(self, low=0.0, high=1.0, size=None):
        u = low + (high - low) * self.draw(size)
        self.on.append(u)
        return u

    def rand(self, *n):
        return self.uniform(size=n or None)

    def random(self, size=None):
        return self.uniform(size=size)

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ('uniform', 'rand', 'random', 'random_sample')}
        for k in self.saved:
            setattr(np.random, k, getattr(self, k if k != 'random_sample' else 'random'))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def deceptive(ctx):
    n, shift, b = ctx.pick((1, 2), 'dims'), ctx.flag('shift'), ctx.pick((1, 2), 'b')
    with Draws(ctx, (0.1, 0.5, 0.9)):
        f = B.Deceptive(n, b, shift_positive=shift)
    a = [float(v) for v in f.min_x]
    ctx.true(len(a) == n and all(0 <= v <= 1 for v in a), 'minimum', f'min_x {a}')
    low = 0 if shift else -1
    ctx.eq(f.min_fx, low, 'minimum', 'min_fx')
    ctx.eq([tuple(i) for i in f.bounds], [(0, 1)] * n, 'bounds', 'bounds')
    x = []
    for v in a:
        x.append(ctx.pick((0.0, 0.4 * v, 0.8 * v, 0.9 * v, v, (v + (1 + 4 * v) / 5) / 2, (1 + 4 * v) / 5, (1 + v) / 2, 1.0),
                          'x'))
    g = 0.0
    for v, w in zip(x, a):
        k = (1 + 4 * w) / 5
        g += (0.8 - v / w if v <= 0.8 * w else 5 * v / w - 4 if v <= w else 5 * (v - w) / (w - 1) + 1 if v <= k else
              (v - 1) / (1 - w) + 0.8)
    want = -(g / n) ** b + shift
    got = asked(ctx, f, x, 'list', 0)
    ctx.true(close(got, want), 'value', f'{got} instead of {want}')
    ctx.true(got >= low - 1e-9, 'lower', f'{got} is below the minimum')
    ctx.true(abs(f(a) - low) < 1e-9, 'minimum', f'{f(a)} at the minimum')


def least_squares(ctx):
    n = ctx.pick((1, 2), 'dims')
    noisy, fixed = ctx.pick((0, 0.1), 'sigma_eval'), ctx.pick((0, 0.2), 'sigma_fixed')
    u = ctx.pick((4, (1.0, 3.0), [0.0, 1.0, 2.0]), 'u_train')
    nt = 3 if isinstance(u, list) else ctx.pick((1, 2), 'n_train')
    rng = ctx.pick(((-2, 2), (0, 1)), 'p_range')
    d = Draws(ctx, (0.25, 0.75))
    with d:
        f = B.ExpLeastSquaresCost(n, nt, noisy, fixed, u, rng, delay=0)
    lo, hi = (0, u) if isinstance(u, int) else (u[0], u[1]) if isinstance(u, tuple) else (0, 2)
    ctx.true(len(f.u_train) == nt and all(lo <= v <= hi for v in f.u_train), 'training', f'points {f.u_train} of {u}')
    if isinstance(u, list):
        ctx.eq(list(f.u_train), u, 'training', 'points')
    ctx.eq([tuple(b) for b in f.bounds], [rng] * n, 'bounds', 'bounds')
    p = [float(v) for v in f.min_x]
    ctx.true(len(p) == n and all(rng[0] <= v <= rng[1] for v in p), 'minimum', f'min_x {p}')
    core = [sum(exp(-q * v) for q in p) for v in f.u_train]
    train = [float(v) for v in f.g_train]
    ctx.true(all(abs(a - b) <= fixed * b + 1e-9 for a, b in zip(train, core)), 'training', f'{train} for {core}')
    ctx.true(close(f.min_fx, sum((a - b) ** 2 for a, b in zip(train, core))), 'minimum', f'min_fx {f.min_fx}')
    x = [ctx.pick((rng[0], 0.5, q), 'x') for q in p]
    want = [sum(exp(-q * v) for q in x) - t for v, t in zip(f.u_train, train)]
    with d:
        got, tot = f.detailed_call(np.array(x)), f(x)
    ok = all(abs(a - b) <= noisy * abs(b) + 1e-9 for a, b in zip(got, want)) and len(got) == nt
    ctx.true(ok, 'value', f'contributions {got} instead of {want}')
    sq = sum(v * v for v in want)
    ctx.true(sq * (1 - noisy) ** 2 - 1e-9 <= tot <= sq * (1 + noisy) ** 2 + 1e-9, 'value', f'{tot} instead of {sq}')
    if not fixed:
        with d:
            ctx.true(abs(f(p)) < 1e-9, 'minimum', 'value at the minimum')


def stochastic(ctx):
    n = ctx.pick(ALL, 'dims')
    f = B.Stochastic(n)
    x = [ctx.pick((-5, 0.5, 1 / (i + 1), 5), 'x') for i in range(n)]
    with Draws(ctx, (0.0, 0.25, 0.999)):
        got = asked(ctx, f, x, 'list', 0)
    worst = sum(abs(v - 1 / i) for i, v in enumerate(x, 1))
    ctx.true(0 <= got <= worst, 'value', f'{got} is not between 0 and {worst}')
    with Draws(ctx, (0.5,)) as d:
        got = f(x)
    e = np.ravel(d.on) if len(np.ravel(d.on)) == n else None
    ctx.true(e is not None, 'value', 'one random number for each dimension')
    if e is not None:
        want = sum(u * abs(v - 1 / i) for i, (u, v) in enumerate(zip(e, x), 1))
        ctx.true(close(got, want), 'value', f'{got} instead of {want}')
    ctx.true(np.allclose(f.min_x, [1 / i for i in range(1, n + 1)]) and f.min_fx == 0, 'minimum', f'{f.min_x}, {f.min_fx}')
    ctx.eq([tuple(b) for b in f.bounds], [(-5, 5)] * n, 'bounds', 'bounds')


def lennard_jones(ctx):
    n, d = ctx.pick((2, 3), 'atoms'), ctx.pick((1, 2, 3), 'dimensions')
    eps, sig = ctx.pick((1, 2.5), 'eps'), ctx.pick((1, 0.5), 'sigma')
    delay = ctx.pick((0, 1.5), 'delay')
    f = B.LennardJones(n, d, eps, sig, **(dict(delay=delay) if delay else {}))
    ctx.eq(f.dims, n * d, 'dims', 'dims')
    b = sig * (PI * n / 3 / sqrt(2)) ** (1 / 3)
    ctx.true(np.allclose(np.array(f.bounds), [(-b, b)] * (n * d)), 'bounds', f'{f.bounds}')
    base = [[0.0] * d for _ in range(n)]
    for i in range(n):
        base[i][0] = i * ctx.pick((0.9, 2 ** (1 / 6), 1.5), 'gap') * sig
        if d > 1:
            base[i][1] = ctx.pick((0.0, 0.3), 'off')
    if n == 3 and base[1][0] >= base[2][0] - 1e-9 and base[1][1:] == base[2][1:]:
        return
    flat = [v for a in base for v in a]
    want, grad = 0.0, np.zeros((n, d))
    for i, j in itertools.combinations(range(n), 2):
        dl = np.array(base[i]) - np.array(base[j])
        r = sqrt((dl ** 2).sum())
        want += 4 * eps * ((sig / r) ** 12 - (sig / r) ** 6)
        g = 4 * eps * (-12 * sig ** 12 / r ** 14 + 6 * sig ** 6 / r ** 8) * dl
        grad[i] += g
        grad[j] -= g
    got = asked(ctx, f, flat, ctx.pick(('list', 'array'), 'kind'), delay)
    ctx.true(close(got, want), 'value', f'{got} instead of {want}')
    ctx.true(close(float(f(np.array(base))), want), 'value', 'the same as an array')
    ctx.true(np.allclose(f.jacobian(flat), grad.ravel(), 1e-9, 1e-9), 'gradient', f'{f.jacobian(flat)} instead of {grad.ravel()}')
    if n == 2:
        ctx.true(got >= -eps - 1e-9, 'lower', f'{got} is below the depth {eps}')


KNOWN = {13: -44.326801, 38: -173.928427, 55: -279.248470}


def clusters(ctx):
    n, d = ctx.pick(tuple(KNOWN), 'atoms'), ctx.pick((1, 2, 3), 'dimensions')
    f = B.LennardJones(n, d)
    v, warned = quietly(lambda: f.min_fx)
    ctx.true(warned, 'warning', 'not told that the value is an estimate')
    if d == 3:
        ctx.true(abs(v / KNOWN[n] - 1) < 0.05, 'minimum', f'{v} estimated for {KNOWN[n]}')
    else:
        ctx.true(v != v, 'minimum', f'{v} in {d} dimensions')


def rana_corner(ctx):
    """ The neighbourhood of the documented minimum. """
    f = B.Rana(2)
    x = [ctx.pick([-500 + 2.5 * k for k in range(5)], 'x') for _ in range(2)]
    ctx.true(f(x) >= f.min_fx - 1e-9, 'lower', f'Rana: {f(x)} is below the minimum {f.min_fx}')


def refused(ctx):
    dims, m = ctx.pick((0, 1, 4, 5), 'dims'), ctx.pick((4, 5, 6, 7, 8, 10, 11), 'm')
    if 0 < dims < 5 and m in (5, 7, 10):
        ctx.eq(B.Shekel(dims, m).dims, dims, 'dims', 'dims')
    else:
        ctx.raises((AssertionError, ValueError), lambda: B.Shekel(dims, m), 'refused', f'Shekel({dims}, {m})')


def u37(tier):
    t = tier == 'thorough'
    k = len(CASES) // 3
    return [
        SeqUnit('minimum', minimum),
        *[SeqUnit(f'formula-{i}', formula(CASES[i * k:(i + 1) * k if i < 2 else None], 90 if t else 40,
                                          ('list', 'tuple', 'array') if t else ('list', 'array'))) for i in range(3)],
        SeqUnit('deceptive', deceptive), SeqUnit('least-squares', least_squares), SeqUnit('stochastic', stochastic),
        SeqUnit('lennard-jones', lennard_jones), SeqUnit('clusters', clusters), SeqUnit('refused', refused), SeqUnit('rana-corner', rana_corner),
    ]


PROPS = {
    'P37': dict(units=u37),
}
