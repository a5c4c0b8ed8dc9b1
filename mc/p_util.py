"""The function wrapper (P31) and the helper functions (P35)."""
import io
import itertools
import logging
import math
import os
import queue as Q
from pathlib import Path

import numpy as np
import tables as tb
import yaml

from .seq import SeqUnit, Stop, same
from . import opts as O  # noqa

from glompo.common import helpers as H
from glompo.common.namedtuples import Bound
from glompo.core.function import BaseFunction
from glompo.core.manager import GloMPOManager
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult

NAN, INF = float('nan'), float('inf')


# ---------------------------------------------------------------------------------------------------------------- P31
class Plain:
    """ A function without detailed form which records what it is called with. """

    def __init__(self, vals):
        self.vals, self.calls = vals, []

    def _next(self, kind, x):
        self.calls.append((kind, type(x), [float(i) for i in x]))
        v = self.vals[(len(self.calls) - 1) % len(self.vals)]
        if v == 'raise':
            raise ArithmeticError('user function failed')
        return v

    def __call__(self, x):
        return self._next('call', x)


class Detailed(Plain):
    form = tuple

    def detailed_call(self, x):
        v = self._next('detailed', x)
        n = float(len(self.calls))
        return self.form((v,) + self.extra(n))

    def extra(self, n):
        return (n, -n)


class DetailedBase(BaseFunction, Detailed):
    """ Built on the base class, as documented. """

    def __call__(self, x):
        return self._next('call', x)

    def detailed_call(self, x):
        return Detailed.detailed_call(self, x)


class CallOnly(BaseFunction, Plain):
    def __call__(self, x):
        return self._next('call', x)


class Program(BaseOptimizer):
    """ Carries out a program of evaluations and keeps what it saw. """

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        self.seen, self.fn = [], function
        for step in self.program:
            self.one(function, step)
        self.kw = (x0, bounds, callbacks, kwargs)
        return MinimizeResult()

    def one(self, function, step):
        kind, x, fate = step
        self.last = getattr(self, 'last', [0.25, 0.5])
        if kind == 'again':
            x = self.last
        asked = [float(i) for i in x]
        try:
            r = function(x) if kind != 'd' else function.detailed_call(x)
        except ArithmeticError as e:
            self.seen.append((kind, asked, 'raised'))
            return
        except (NotImplementedError, AttributeError) as e:
            self.seen.append((kind, asked, 'refused'))
            return
        self.seen.append((kind, asked, r))
        self.last = x
        if fate == 'reuse' and not isinstance(x, tuple):  # the optimizer works on in the same memory
            x[0] = 999.0
            if isinstance(r, list):
                r[-1] = 999.0

    def callstop(self, *a):
        pass


FUNCS = {'plain': Plain, 'detailed': Detailed, 'detailed-list': type('DL', (Detailed,), {'form': list}),
         'detailed-array': type('DA', (Detailed,), {'form': staticmethod(lambda t: np.array(t))}),
         'detailed-none': type('DN', (Detailed,), {'extra': lambda s, n: ()}), 'base': DetailedBase, 'base-plain': CallOnly}


def wrapper(depth, vals, kinds, forms, fates, funcs=tuple(FUNCS)):
    def fn(ctx):
        name = ctx.pick(funcs, 'function')
        detailed = ctx.flag('log detailed')
        task = FUNCS[name](ctx.pick(vals, 'values'))
        can = name not in ('plain', 'base-plain')
        m = GloMPOManager()
        q = m.optimizer_queue
        opt = Program(7, None, q, m._mp_manager.Event(), 1, 'threads', detailed)
        prog = []
        for i in range(depth):
            kind = ctx.pick(kinds + (('again',) if i else ()), f'{i}')
            if kind == 'end':
                break
            form = ctx.pick(forms, 'form') if kind != 'again' else None
            fate = ctx.pick(fates, 'fate')
            x = [float(i), -0.5 * i]
            prog.append((kind, form(x) if form else None, fate))
        opt.program = prog
        if detailed and name == 'plain':
            # a function without detailed form cannot be logged in detail
            ctx.raises(AttributeError, lambda: opt_minimize(opt, task), 'refused', 'detailed logging of a plain function')
            ctx.true(not task.calls, 'called', 'the function was called')
            return
        res = opt_minimize(opt, task)
        # what the optimizer saw
        want_seen, want_log, want_calls = [], [], []
        vi = 0
        last = None
        for (kind, asked, got) in opt.seen:
            det = detailed or kind == 'd'
            if det and not can:
                ctx.eq(got, 'refused', 'refused', f'{kind} of a function without detailed form')
                continue
            v = task.vals[vi % len(task.vals)]
            vi += 1
            want_calls.append(('detailed' if det else 'call', asked))
            if v == 'raise':
                ctx.eq(got, 'raised', 'error', 'error of the function')
                continue
            full = [v] + ([float(i) for i in task.extra(float(vi))] if det else [])
            shown = got.tolist() if isinstance(got, np.ndarray) else got
            if kind != 'd':
                ctx.true(not isinstance(got, str) and np.ndim(got) == 0, 'value', f'{kind} returned {got!r}')
                ctx.eq(shown, v, 'value', f'value the optimizer received for {asked}')
            else:
                shown = list(shown)
                if opt.seen and isinstance(got, list) and shown and shown[-1] == 999.0:
                    shown[-1] = full[-1]
                ctx.eq(shown, full, 'value', f'detailed value received for {asked}')
            want_log.append((asked, v, full[1:]))
        ctx.eq([(k, x) for k, _, x in task.calls], want_calls, 'calls', 'calls of the function')
        # what the log received
        got = drain(q, [])
        ctx.true(bool(got) and type(got[-1]) is int and got.pop() == 7, 'end', 'the end marker is not the last item')
        ctx.eq([(r.opt_id, [float(i) for i in r.x], float(r.fx), [float(i) for i in r.extras]) for r in got],
               [(7, x, float(v), e) for x, v, e in want_log], 'log', 'what the log received')
        ctx.see(name, detailed, len(got))
        ctx.note([r.fx for r in got])
    return fn


def opt_minimize(opt, task):
    class P:
        def send(self, *a):
            pass
    opt._signal_pipe = P()
    return opt._minimize(task, [0.0, 0.0], [(0, 1), (0, 1)], None)


def drain(q, got):
    while True:
        try:
            got += q.get(block=False)
        except Q.Empty:
            if q.has_cache():
                q.flush()
                continue
            return got


class Drained(Program):
    """ The manager takes the results at intervals. """

    def one(self, function, step):
        n = self.done = getattr(self, 'done', 0) + 1
        super().one(function, step)
        if n % self.period == 0 or n == len(self.program):
            drain(self._results_queue, self.got)


def many(n):
    """ More evaluations than the queue holds. """
    def fn(ctx):
        k = ctx.pick(range(0, n), 'evaluations')
        period = ctx.pick((1, 4, 9, 10, 11, 19), 'taken every')
        detailed = ctx.flag('log detailed')
        task = Detailed((1.0, NAN, -3.0))
        m = GloMPOManager()
        opt = Drained(7, None, m.optimizer_queue, m._mp_manager.Event(), 1, 'threads', detailed)
        opt.program = [('e' if i % 3 else 'd', [float(i)], 'reuse') for i in range(k)]
        opt.period, opt.got = period, []
        opt_minimize(opt, task)
        got = drain(m.optimizer_queue, opt.got)
        ctx.true(bool(got) and type(got[-1]) is int and got.pop() == 7, 'end', 'the end marker is not the last item')
        ctx.eq([[float(i) for i in r.x] for r in got], [[float(i)] for i in range(k)], 'log', 'points logged')
        ctx.eq([len(r.extras) for r in got], [2 if detailed or i % 3 == 0 else 0 for i in range(k)], 'log', 'extras')
    return fn


def p31(tier):
    deep = tier == 'thorough'
    arr = lambda x: np.array(x)  # noqa
    return [
        SeqUnit('calls', wrapper(3 if not deep else 4, ((1.0, -2.0, NAN),), ('e', 'd'), (list,), ('keep', 'reuse'))),
        SeqUnit('forms', wrapper(2 if not deep else 3, ((1.0, 0.0),), ('e', 'd'), (list, tuple, arr), ('reuse',))),
        SeqUnit('values', wrapper(2, ((NAN,), (INF,), (-INF,), (0,), (np.float64(2.5), 3), (-0.0,), (1e308,), (True,)),
                                  ('e', 'd'), (list,), ('keep',))),
        SeqUnit('errors', wrapper(3, ((1.0, 'raise'), ('raise',), ('raise', 2.0)), ('e', 'd'), (list,), ('keep',),
                                  ('plain', 'detailed', 'base'))),
        SeqUnit('many', many(40)),
    ]


# ---------------------------------------------------------------------------------------------------------------- P35
def bounds(ctx):
    alphabet = (-INF, -1.0, -0.0, 0, 1, 5e-324, INF, NAN)
    n = ctx.pick((0, 1, 2), 'n')
    b = [(ctx.pick(alphabet, 'lo'), ctx.pick(alphabet, 'hi')) for _ in range(n)]
    form = ctx.pick(('list', 'tuple', 'Bound', 'array'), 'form')
    arg = {'list': [list(i) for i in b], 'tuple': tuple(b), 'Bound': [Bound(*i) for i in b],
           'array': np.array(b, float) if b else []}[form]
    want = all(math.isfinite(lo) and math.isfinite(hi) and lo < hi for lo, hi in b)
    ctx.eq(H.is_bounds_valid(arg, False), want, 'bounds', f'{b}')
    if want:
        ctx.eq(H.is_bounds_valid(arg), True, 'bounds', f'{b}')
        ctx.eq(H.is_bounds_valid(arg, raise_invalid=True), True, 'bounds', f'{b}')
    else:
        ctx.raises(ValueError, lambda: H.is_bounds_valid(arg), 'bounds', f'{b}')
    ctx.note(want)


def dist(ctx):
    alphabet = (0.0, 1, -2.5, 3.0, 1e10)
    n = ctx.pick((1, 2), 'n')
    a = [ctx.pick(alphabet, '') for _ in range(n)]
    b = [ctx.pick(alphabet, '') for _ in range(n)]
    f = ctx.pick((list, tuple, np.array), 'form')
    want = math.sqrt(sum((i - j) ** 2 for i, j in zip(a, b)))
    got = float(H.distance(f(a), f(b)))
    ctx.true(abs(got - want) <= 1e-12 * max(1, want), 'distance', f'{a}, {b}: got {got}, expected {want}')
    ctx.note(round(want, 6))


def memory(ctx):
    k = ctx.pick(range(0, 9), 'unit')
    m = ctx.pick((1, 1.5, 2, 10, 999.5, 1000, 1023, 1023.9), 'amount')
    d = ctx.pick((0, 1, 2, 3), 'digits')
    as_int = ctx.flag('int')
    n = m * 1024 ** k
    if as_int:
        n = int(n)
    got = H.present_memory(n, d)
    unit = ['B', 'kB', 'MB', 'GB', 'TB', 'PB', 'EB', 'ZB', 'YB'][k]
    if k and m == 1:  # 1024 of the smaller unit: both are right
        low = '1024.' + '0' * d if d and k > 1 else '1024'
        ok = got in (f'{1:.{d}f}{unit}', low + ['B', 'kB', 'MB', 'GB', 'TB', 'PB', 'EB', 'ZB'][k - 1])
    else:
        ok = got == f'{n / 1024 ** k:.{d if k else 0}f}{unit}'
    ctx.true(ok, 'memory', f'{n} with {d} digits: got {got!r}')
    if d == 2:
        ctx.eq(H.present_memory(n), got, 'memory', 'default number of digits')
    ctx.note(got)


def minima(ctx):
    n = ctx.pick(range(1, 6), 'n')
    x = [ctx.pick((3, -1.5, 0, INF) if n < 5 else (3, -1.5, INF), '') for _ in range(n)]
    form = ctx.pick((list, tuple, lambda v: np.array(v, float)), 'form')
    arg = form(x)
    keep = list(arg)
    want = [min(x[:i + 1]) for i in range(n)]
    ctx.eq(list(H.rolling_min(arg)), want, 'rolling_min', f'{x}')
    ctx.eq(list(arg), keep, 'rolling_min-input', f'argument {x} was changed')
    ctx.note(want)


def bad_minima(ctx):
    x = [ctx.pick((1.0, NAN, 'a', None), '') for _ in range(ctx.pick((1, 2, 3), 'n'))]
    if all(isinstance(i, float) and i == i for i in x):
        ctx.eq(list(H.rolling_min(x)), [min(x)] * len(x), 'rolling_min', f'{x}')
    else:
        ctx.raises(AssertionError, lambda: H.rolling_min(x), 'rolling_min', f'{x}')


def nests(depth, width, leaves, kinds):
    def make(ctx, d):
        k = ctx.pick(('leaf',) + (kinds if d else ()), '')
        if k == 'leaf':
            v = ctx.pick(leaves, '')
            return v, [v]
        kids = [make(ctx, d - 1) for _ in range(ctx.pick(range(width + 1), ''))]
        flat = [i for _, f in kids for i in f]
        return {'list': list, 'tuple': tuple}[k](c for c, _ in kids), flat

    def fn(ctx):
        seq, flat = make(ctx, depth)
        got = list(H.unravel(seq))
        ctx.true(len(got) == len(flat) and all(a is b or a == b for a, b in zip(got, flat)), 'unravel',
                 f'{seq!r}: got {got!r}, expected {flat!r}')
        ctx.note(repr(seq))
    return fn


COLS = [(1.5, 'float64', ()), (NAN, 'float64', ()), (3, 'int64', ()), (-(2 ** 40), 'int64', ()), (True, 'bool', ()),
        (False, 'bool', ()), ('text', 'string', ()), ('', 'string', ()), ([1, 2, 3], 'int64', (3,)),
        ((1.0, 2), 'float64', (2,)), (np.array([[1.0], [2.0]]), 'float64', (2, 1)), ([True, False], 'bool', (2,)),
        ([[1, 2], [3, 4]], 'int64', (2, 2)), (None, 'float64', ()), (1 + 2j, 'complex128', ()),
        (np.float64(2.0), 'float64', ())]


def columns(ctx):
    n = ctx.pick((0, 1, 2, 3), 'n')
    items = [ctx.pick(COLS if n < 3 else COLS[:9:2] + COLS[9:11], '') for _ in range(n)]
    got = H.infer_headers([i[0] for i in items])
    ctx.eq(list(got), [f'result_{i}' for i in range(n)], 'headers', 'names')
    for i, (v, kind, shape) in enumerate(items):
        c = got[f'result_{i}']
        t = 'string' if c.kind == 'string' else str(np.dtype(c.dtype.base))
        ctx.eq(t, kind, 'headers', f'type of column {i} for {v!r}')
        ctx.eq(tuple(c.shape), shape, 'headers', f'shape of column {i} for {v!r}')
        ctx.eq(c._v_pos, i, 'headers', f'position of column {i}')
        if kind == 'string':
            ctx.eq(c.itemsize, 280, 'headers', 'length of strings')
    ctx.note([i[1:] for i in items])


def bad_columns(ctx):
    ctx.raises(TypeError, lambda: H.infer_headers([ctx.pick((object(), {1: 2}, {1, 2}, b'x', len), 'value')]), 'headers',
               'a value of unknown type')


def nested(size):
    """ Reports of combined conditions and their readable form. """
    def make(ctx, n):
        if n == 1:
            return ctx.pick(('A()', 'B(x=1)'), ''), None
        k = ctx.pick(range(1, n), '') if n > 2 else 1
        a, b = make(ctx, k), make(ctx, n - k)
        op = ctx.pick('&|', '')
        return f'[{a[0]} {op} \n{b[0]}]', None

    def fn(ctx):
        text = make(ctx, ctx.pick(range(1, size + 1), 'n'))[0]
        got = H.nested_string_formatting(text)
        lines = got.split('\n')
        inner = text[1:-1] if text[0] == '[' else text
        squeeze = lambda s: ''.join(s.split())  # noqa
        ctx.eq(squeeze(got), squeeze(inner), 'nested', f'characters of {text!r}')
        level = 0
        for ln in lines:
            s = ln.strip()
            if s.startswith(']'):
                level -= 1
            ctx.eq(len(ln) - len(ln.lstrip(' ')), level, 'nested', f'indentation of {ln!r} in {got!r}')
            if s.endswith('['):
                level += 1
            ctx.true(s.count('[') + s.count(']') <= 1, 'nested', f'several levels in the line {ln!r}')
        ctx.eq(level, 0, 'nested', 'levels at the end')
        ctx.note(text)
    return fn


def directories(depth):
    """ Changing the working directory in nested blocks, with errors. """
    def fn(ctx):
        root = Path(ctx.dir)
        os.chdir(root)
        (root / 'there').mkdir()

        class Mine(Exception):
            pass

        def level(d):
            here = os.getcwd()
            where = ctx.pick(('there', 'new', 'new/deeper', '.', '..', 'abs'), 'path')
            p = root / 'abs' / str(d) if where == 'abs' else Path(where)
            if ctx.flag('as text'):
                p = str(p)
            want = os.path.normpath(os.path.join(here, str(p)))
            fail = ctx.flag('error')
            try:
                with H.WorkInDirectory(p):
                    ctx.eq(os.getcwd(), want, 'directory', 'inside')
                    if d > 1:
                        level(d - 1)
                        ctx.eq(os.getcwd(), want, 'directory', 'after an inner block')
                    if fail:
                        raise Mine
                ctx.true(not fail, 'swallowed', 'the error disappeared')
            except Mine:
                ctx.true(fail, 'error', 'unexpected')
            ctx.eq(os.getcwd(), here, 'directory', 'restored')

        (root / 'a').mkdir()
        os.chdir(root / 'a')
        level(depth)
        ctx.note(ctx.describe())
    return fn


class Thing:
    def __init__(self, a, b):
        self.a, self.b, self._hidden = a, b, 3

    def method(self):
        pass


def dumper():
    class D(getattr(yaml, 'CDumper', yaml.Dumper)):
        pass
    for cls, pres in ((H.LiteralWrapper, H.literal_presenter), (H.FlowList, H.flow_presenter),
                      (H.BoundGroup, H.bound_group_presenter), (np.ndarray, H.numpy_array_presenter)):
        yaml.add_representer(cls, pres, Dumper=D)
    yaml.add_multi_representer(np.generic, H.numpy_dtype_presenter, Dumper=D)
    yaml.add_multi_representer(object, H.unknown_object_presenter, Dumper=D)
    return D


VALS = [(1, 1), (1.5, 1.5), (INF, INF), (-INF, -INF), (np.float64(1.25), 1.25), (np.int64(3), 3), (np.int8(-3), -3),
        (np.bool_(True), True), (np.str_('t'), 't'), (np.float32(0.5), 0.5), (np.array([1.0, 2.0]), [1.0, 2.0]),
        (np.array([[1, 2], [3, 4]]), [[1, 2], [3, 4]]), (np.array([]), []), (np.array(['a', 'b']), ['a', 'b']),
        (H.FlowList([1, 2.5]), [1, 2.5]), (H.FlowList([]), []), ('text: [x]\n', 'text: [x]\n'), (None, None), ([1, [2]], [1, [2]]),
        ({'k': np.float64(1.0)}, {'k': 1.0}), (H.LiteralWrapper('a\nb'), 'a\nb'), (H.LiteralWrapper(''), ''),
        (H.LiteralWrapper('a \n b'), 'a\n b'), (Thing(1, np.int64(2)), {'Thing': {'a': 1, 'b': 2}}), (Program, 'Program'),
        (Thing(None, [1]), {'Thing': {'a': None, 'b': [1]}}), (np.array([[True]]), [[True]])]


def yamls(ctx):
    """ What is written can be read back with plain YAML. """
    n = ctx.pick((1, 2), 'n')
    vals = [ctx.pick(VALS, 'value') for _ in range(n)]
    flow = ctx.pick((False, None), 'style')
    if n == 1 and ctx.flag('alone'):
        data, want = vals[0]
    else:
        data, want = {f'k{i}': v for i, (v, _) in enumerate(vals)}, {f'k{i}': w for i, (_, w) in enumerate(vals)}
    text = yaml.dump(data, Dumper=dumper(), default_flow_style=flow, sort_keys=False)
    back = yaml.safe_load(text)
    strip = lambda v: v.rstrip('\n') if isinstance(v, str) else v  # noqa  (block text keeps a line end)
    if isinstance(back, dict) and isinstance(want, dict) and back.keys() == want.keys():
        back, want = {k: strip(v) for k, v in back.items()}, {k: strip(v) for k, v in want.items()}
    else:
        back, want = strip(back), strip(want)
    ctx.eq(back, want, 'yaml', f'{text!r}')
    ctx.note(text)


def grouped(ctx):
    alphabet = [(0, 1), (0.0, 1.0), (-0.0, 1), (0, 2), (np.float64(0), np.float64(1)), (-1.5, 1e10)]
    n = ctx.pick(range(1, 5), 'n')
    b = [Bound(*ctx.pick(alphabet, '')) for _ in range(n)]
    text = yaml.dump({'Bounds': H.BoundGroup(b)}, Dumper=dumper(), default_flow_style=False, sort_keys=False)
    back = yaml.safe_load(text)['Bounds']
    got = {}
    for k, idx in back.items():
        lo, hi = k.strip('()').split(',')
        for i in idx:
            ctx.true(i not in got, 'grouped', f'index {i} twice in {text!r}')
            got[i] = (float(lo), float(hi))
    ctx.eq(got, {i: (float(v[0]), float(v[1])) for i, v in enumerate(b)}, 'grouped', f'{text!r}')
    ctx.note(text)


def split_logs(depth):
    """ Messages of optimizers are divided into one file each. """
    def fn(ctx):
        prop = ctx.flag('propagate')
        fmt = logging.Formatter('%(levelname)s %(message)s') if ctx.flag('formatter') else None
        where = ctx.pick(('given', 'new/deeper'), 'path')
        base = 'glompo.optimizers'
        root = logging.getLogger(base)
        out = io.StringIO()
        disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        old_level, old_prop, names = root.level, root.propagate, set()
        h = logging.StreamHandler(out)
        d = Path(ctx.dir) / where
        try:
            h.addFilter(H.SplitOptimizerLogs(d, propagate=prop, formatter=fmt))
            root.addHandler(h)
            root.setLevel('DEBUG')
            root.propagate = False
            want, stream = {}, []
            for i in range(depth):
                k = ctx.pick(('end', 1, 2, 12), '')
                if k == 'end':
                    break
                lv = ctx.pick(('debug', 'warning'), 'level')
                names.add(k)
                getattr(logging.getLogger(f'{base}.opt{k}'), lv)('message %d of %s', i, k)
                line = f'message {i} of {k}'
                want.setdefault(k, []).append(f'{lv.upper()} {line}' if fmt else line)
                stream.append(line)
            got = {p.name: p.read_text().splitlines() for p in d.iterdir()}
            ctx.eq(got, {f'optimizer_{k}.log': v for k, v in want.items()}, 'split', 'files')
            ctx.eq(out.getvalue().splitlines(), stream if prop else [], 'split', 'stream')
            ctx.note(sorted(got.items()))
        finally:
            root.removeHandler(h)
            root.setLevel(old_level)
            root.propagate = old_prop
            for k in names:
                lg = logging.getLogger(f'{base}.opt{k}')
                for f in list(lg.handlers):
                    f.close()
                    lg.removeHandler(f)
            logging.disable(disabled)
    return fn


def p35(tier):
    deep = tier == 'thorough'
    return [
        SeqUnit('bounds', bounds), SeqUnit('distance', dist), SeqUnit('memory', memory), SeqUnit('minima', minima),
        SeqUnit('bad-minima', bad_minima),
        SeqUnit('unravel', nests(2, 2, (0, 'ab', None), ('list', 'tuple'))),
        SeqUnit('unravel-deep', nests(3 if not deep else 4, 1 if not deep else 1, (0, 'a', '', 'ab', 1.5), ('list', 'tuple'))),
        SeqUnit('columns', columns), SeqUnit('bad-columns', bad_columns),
        SeqUnit('nested', nested(5 if not deep else 6)),
        SeqUnit('directories', directories(2 if not deep else 3)),
        SeqUnit('yaml', yamls), SeqUnit('groups', grouped),
        SeqUnit('split-logs', split_logs(3 if not deep else 4)),
    ]


PROPS = {
    'P31': dict(units=p31),
    'P35': dict(units=p35),
}
