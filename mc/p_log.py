"""The evaluation log: in memory (P18) and on file (P19), against a plain list of what was recorded."""
import datetime
import math
import sys
import os
from pathlib import Path

import tables

from .seq import SeqUnit, Stop, same
from . import opts as O  # noqa

from glompo.common.helpers import infer_headers
from glompo.common.namedtuples import IterationResult
from glompo.core.optimizerlogger import BaseLogger, FileLogger

NAN, INF = float('nan'), float('inf')
TYPES = {1: 'OptA', 2: 'OptB', 3: 'OptA'}


class Ref:
    """ Plain list of recordings. """

    def __init__(self, keep):
        self.rows = []      # (opt, x, fx, extras)
        self.opts = {}      # opt -> metadata
        self.msgs = {}
        self.hist = set()   # optimizers with a history table
        self.dropped = set()
        self.keep = keep    # nothing is dropped from memory (a plot was requested)
        self.cols = ()

    def of(self, o):
        return [(i + 1,) + r for i, r in enumerate(self.rows) if r[0] == o]

    def best(self, o=None):
        b = None
        for i, r in enumerate(self.rows):
            if (o is None or r[0] == o) and r[2] < INF and (b is None or r[2] < self.rows[b][2]):
                b = i
        if b is None:
            return None
        r = self.rows[b]
        return dict(opt_id=r[0], x=r[1], fx=r[2], type=TYPES[r[0]], call_id=b + 1)


def compare(ctx, log, ref, file, when):
    n = len(ref.opts)
    ctx.eq(log.n_optimizers, n, 'n_optimizers', when)
    ctx.eq(len(log), len(ref.rows), 'len', when)
    fin = [r[2] for r in ref.rows if math.isfinite(r[2])]
    ctx.eq(log.largest_eval, max(fin, default=-INF), 'largest', f'largest evaluation {when}')

    def best(got, want, opt, what):
        if want is None:
            want = dict(opt_id=opt, x=[], fx=INF, call_id=0, type=TYPES.get(opt, ''))
        ctx.eq({k: (list(v) if k == 'x' else v) for k, v in got.items()}, want, 'best', f'{what} {when}')

    best(log.get_best_iter(), ref.best(), 0, 'best evaluation')
    for o in (1, 2, 3):
        if o not in ref.opts:
            ctx.eq(o in log, False, 'contains', f'unknown optimizer {o} {when}')
            ctx.eq(log.len(o), 0, 'len-opt', f'unknown optimizer {o} {when}')
            ctx.eq(list(log.get_history(o, 'fx')), [], 'history', f'unknown optimizer {o} {when}')
            ctx.eq(log.has_iter_history(o), False, 'has', f'unknown optimizer {o} {when}')
            continue
        best(log.get_best_iter(o), ref.best(o), o, f'best evaluation of {o}')
        gone = o in ref.dropped and not file
        rows = [] if gone else ref.of(o)
        ctx.eq(o in log, not gone, 'contains', f'optimizer {o} {when}')
        ctx.eq(log.len(o), len(rows), 'len-opt', f'length of {o} {when}')
        ctx.eq(log.has_iter_history(o), o in ref.hist and not gone, 'has', f'history of {o} {when}')
        for k, col in enumerate(('call_id', 'opt', 'x', 'fx') + tuple(ref.cols)):
            if col == 'opt' or (o not in ref.hist and col in ref.cols):
                continue
            want = [r[k] if k < 4 else r[4][k - 4] for r in rows]
            got = [g.tolist() if hasattr(g, 'tolist') else g for g in log.get_history(o, col)]
            got = [g.decode() if isinstance(g, bytes) else g for g in got]
            ctx.eq(got, [list(v) if isinstance(v, (tuple, list)) else v for v in want], 'history',
                   f'{col} of optimizer {o} {when}')
        if not gone:
            for key, v in ref.opts[o].items():
                ctx.eq(log.get_metadata(o, key), v, 'metadata', f'{key} of optimizer {o} {when}')


def headers(kind):
    """ (extra columns, extras of evaluation i) """
    if kind == 'none':
        return {}, lambda i: ()
    if kind == 'two':
        return ({'b': tables.Float64Col(pos=0), 'a': tables.Int64Col(pos=1)}, lambda i: (i + 0.25, i * 3))
    if kind == 'unplaced':
        return ({'zz': tables.Float64Col(), 'm': tables.Float64Col(), 'aa': tables.Float64Col()},
                lambda i: (i + 0.25, 100.0 + i, -1.0 * i))
    if kind == 'documented':
        return ({'fx': tables.Float64Col(), 'training_set_residuals': tables.Float64Col(shape=2),
                 'validation_set_fx': tables.Float64Col(), 'errors': tables.StringCol(itemsize=280, dflt=b'None')},
                lambda i: ([i, i + 1.0], i / 4, f'err {i}'))
    ex = lambda i: (i + 0.5, i % 2 == 0, 7 * i, f's{i}', [i, i + 1], 1j * i)  # noqa
    return infer_headers(ex(0)), ex


VALUES = (1.0, 1.0 - 2 ** -53, 0.0, -3.0, NAN, INF, -INF, 1e300)


def log_ops(make, depth, values, kinds=('none',), ops=None, keeps=(False,), file=False, n_opts=2, check='each',
            sizes=(64,)):
    def fn(ctx):
        size = ctx.pick(sizes, 'size')
        small = sys.getsizeof
        sys.getsizeof = lambda obj, default=0: size  # beyond 100 MB of pending evaluations they are written
        try:
            work(ctx)
        finally:
            sys.getsizeof = small

    def work(ctx):
        keep = ctx.pick(keeps, 'keep')
        kind = ctx.pick(kinds, 'columns')
        ref = Ref(keep)
        heads, ext = headers(kind)
        ref.cols = tuple(k for k in heads if k != 'fx')
        root = Path(ctx.dir) if file else None
        log = make(keep)
        path = None
        if file:
            path = root / 'log.h5'
            log.open(path, 'w', 'SUM')
        t0 = datetime.datetime(2020, 1, 1)
        n_meta = 0
        try:
            for step in range(depth):
                todo = ['end']
                if len(ref.opts) < n_opts:
                    todo.append(('add',))
                for o in ref.opts:
                    if o not in ref.dropped or ref.keep and not file:
                        todo += [('put', o, v) for v in values]
                    todo += [(k, o) for k in ops if k in ('msg', 'meta')]
                    if 'drop' in ops and (o not in ref.dropped):
                        todo.append(('drop', o))
                todo += [(k,) for k in ops if k in ('dropall', 'reload', 'flush', 'mgr')]
                op = ctx.pick(todo, f'{step}')
                if op == 'end':
                    break
                if op[0] == 'add':
                    o = len(ref.opts) + 1
                    log.add_optimizer(o, TYPES[o], t0 + datetime.timedelta(o))
                    ref.opts[o] = dict(opt_id=o, opt_type=TYPES[o], t_start=t0 + datetime.timedelta(o))
                    ref.msgs[o] = []
                elif op[0] == 'put':
                    o, v = op[1:]
                    if o not in ref.hist:
                        log.add_iter_history(o, headers(kind)[0])
                        ref.hist.add(o)
                    i = len(ref.rows)
                    x = [float(i), -1.0 * o]
                    log.put_iteration(IterationResult(o, list(x), v, ext(i)))
                    ref.rows.append((o, x, v, tuple(ext(i))))
                elif op[0] == 'msg':
                    text = f'message {len(ref.msgs[op[1]])} \u00e9\nline two' if step % 2 else ''
                    text += f'{step}'
                    log.put_message(op[1], text)
                    ref.msgs[op[1]].append(text)
                elif op[0] == 'meta':
                    n_meta += 1
                    log.put_metadata(op[1], 'end_cond', f'reason {n_meta}')
                    if file or op[1] not in ref.dropped:
                        ref.opts[op[1]]['end_cond'] = f'reason {n_meta}'
                elif op[0] == 'drop':
                    log.clear_cache(op[1])
                    if file or not ref.keep:
                        ref.dropped.add(op[1])
                elif op[0] == 'dropall':
                    log.clear_cache()
                    if file or not ref.keep:
                        ref.dropped |= set(ref.opts)
                elif op[0] == 'flush':
                    log.flush()
                elif op[0] == 'mgr':
                    log.put_manager_metadata('note', f'n{step}')
                elif op[0] == 'reload':
                    d = Path(ctx.dir) / f'c{step}'
                    d.mkdir()
                    log.flush()
                    log.checkpoint_save(d)
                    if file:
                        log.close()
                    log = type(log).checkpoint_load(d / 'opt_log')
                    if file:
                        log.open(path, 'a', 'SUM')
                if check == 'each':
                    compare(ctx, log, ref, file, f'after step {step}')
                ctx.see(len(ref.rows), tuple(sorted(ref.dropped)), tuple(sorted(ref.hist)), len(ref.opts),
                        ref.best() and ref.best()['call_id'])
            if check == 'end':
                compare(ctx, log, ref, file, 'at the end')
            if file:
                log.close()
                verify_file(ctx, path, ref)
            else:
                log.close()
                ref.dropped = set() if ref.keep else set(ref.opts)
                compare(ctx, log, ref, file, 'after closing')
        finally:
            f = getattr(log, 'pytab_file', None)
            if f is not None and f.isopen:
                f.close()
        ctx.note([(r[0], repr(r[2])) for r in ref.rows], sorted(ref.dropped))
    return fn


def verify_file(ctx, path, ref):
    with tables.open_file(str(path)) as f:
        ctx.eq(sorted(g._v_name for g in f.iter_nodes('/', 'Group')), sorted(f'optimizer_{o}' for o in ref.opts), 'file',
               'optimizers in the file')
        a = f.root._v_attrs
        ctx.eq(a['checksum'], 'SUM', 'file', 'checksum')
        for key, v in (('f_counter', len(ref.rows)), ('opts_started', len(ref.opts)),
                       ('max_eval', max([r[2] for r in ref.rows if math.isfinite(r[2])], default=-INF))):
            ctx.eq(a[key], v, 'file', key)
        b = ref.best()
        if b:
            got = a['best_iter']
            ctx.eq({k: (list(v) if k == 'x' else v) for k, v in got.items()}, b, 'file', 'best_iter')
        for o in ref.opts:
            g = f.get_node('/', f'optimizer_{o}')
            for k, v in ref.opts[o].items():
                ctx.eq(g._v_attrs[k], v, 'file', f'metadata {k} of {o}')
            ctx.eq(list(g['messages'][:]), ref.msgs[o], 'file', f'messages of {o}')
            ctx.eq('iter_hist' in g, o in ref.hist, 'file', f'table of {o}')
            if o not in ref.hist:
                continue
            t = g['iter_hist']
            ctx.eq(sorted(t.colnames), sorted(('call_id', 'x', 'fx') + ref.cols), 'file', f'columns of {o}')
            rows = ref.of(o)
            for k, col in enumerate(('call_id', 'opt', 'x', 'fx') + ref.cols):
                if col == 'opt':
                    continue
                want = [r[k] if k < 4 else r[4][k - 4] for r in rows]
                got = [v.tolist() if hasattr(v, 'tolist') else v for v in t.col(col)]
                got = [v.decode() if isinstance(v, bytes) else v for v in got]
                ctx.eq(got, [list(v) if isinstance(v, (tuple, list)) else v for v in want], 'file', f'{col} of {o}')
            b = ref.best(o)
            if b:
                got = g._v_attrs['best_iter']
                ctx.eq({k: (list(v) if k == 'x' else v) for k, v in got.items()}, b, 'file', f'best_iter of {o}')


def memory(keep):
    return BaseLogger(keep)


def on_file(keep):
    return FileLogger(2, 100, keep)


def p18(tier):
    deep = tier == 'thorough'
    return [
        SeqUnit('all-ops', log_ops(memory, 5 if not deep else 6, (1.0, -3.0), ops=('msg', 'meta', 'drop', 'dropall',
                                                                                 'reload'), keeps=(False, True))),
        SeqUnit('values', log_ops(memory, 5 if not deep else 6, VALUES, ops=(), n_opts=1)),
        SeqUnit('values-two', log_ops(memory, 6 if not deep else 7, (0.0, -3.0, NAN, INF) if not deep else
                                      (0.0, -3.0, NAN, INF, 1e300), ops=(), check='end')),
        SeqUnit('drops', log_ops(memory, 8 if not deep else 9, (1.0, 0.5), ops=('drop',), check='end')),
        SeqUnit('columns', log_ops(memory, 5 if not deep else 6, (1.0, 2.0), kinds=('two', 'unplaced', 'documented',
                                                                                  'inferred'), ops=('drop', 'reload'))),
    ]


def p19(tier):
    deep = tier == 'thorough'
    return [
        SeqUnit('all-ops', log_ops(on_file, 3 if not deep else 4, (1.0, 0.5), ops=('msg', 'meta', 'drop', 'dropall',
                                                                                  'flush', 'mgr', 'reload'),
                                   keeps=(False, True), file=True)),
        SeqUnit('drops', log_ops(on_file, 5 if not deep else 6, (1.0, NAN), ops=('drop', 'msg'), file=True,
                                 check='end')),
        SeqUnit('reloads', log_ops(on_file, 5 if not deep else 6, (1.0,), ops=('drop', 'reload'), file=True,
                                   check='end', kinds=('none', 'two'))),
        SeqUnit('bulk', log_ops(on_file, 5 if not deep else 6, (1.0,), ops=('drop',), file=True, keeps=(False, True),
                                check='end', sizes=(3e6, 6e6, 2e8))),
        SeqUnit('values', log_ops(on_file, 3, VALUES, ops=(), n_opts=1, file=True, check='end')),
        SeqUnit('columns', log_ops(on_file, 3 if not deep else 4, (1.0, 2.0),
                                   kinds=('two', 'unplaced', 'documented', 'inferred'), ops=('drop', 'flush'), file=True,
                                   check='end')),
    ]


PROPS = {
    'P18': dict(units=p18),
    'P19': dict(units=p19),
}
