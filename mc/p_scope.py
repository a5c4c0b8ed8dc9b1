"""The live picture of a run (P39): the scope alone, on every sequence of events, and attached to scheduled runs."""
import math

import numpy as np

from . import chk, kernel, oracles as o, virt
from .p_run import S1, S2, SC, V, E, NAN, INF, P, T, core, sc, units
from .p_chk import cc, ez
from .scen import Unit
from .seq import SeqUnit, Stop

S0 = dict(s=0)


# ---- the canvas ---------------------------------------------------------------------------------------------------------
class Line:
    """ Holds its data. """

    def __init__(self, x=(), y=(), **kw):
        self.x, self.y, self.kw = np.array(x), np.array(y), kw

    def get_xdata(self, orig=True):
        return self.x

    def get_ydata(self, orig=True):
        return self.y

    def get_data(self, orig=True):
        return self.x, self.y

    def set_xdata(self, x):
        self.x = np.array(x)

    def set_ydata(self, y):
        self.y = np.array(y)

    def set_data(self, *a):
        self.x, self.y = (np.array(i) for i in (a if len(a) == 2 else a[0]))

    def __getattr__(self, n):
        if n.startswith('__') or n in ('x', 'y', 'kw'):
            raise AttributeError(n)
        return virt._Null(n)


class Ax:
    def __init__(self):
        self.lines, self.lim = [], {}

    def plot(self, x=(), y=(), *a, **kw):
        self.lines.append(Line(x, y, **kw))
        return [self.lines[-1]]

    def set_xlim(self, *a):
        self.lim['x'] = a

    def set_ylim(self, *a):
        self.lim['y'] = a

    def get_position(self):
        return virt._Null('box')

    def __getattr__(self, n):
        if n.startswith('__') or n in ('lines', 'lim'):
            raise AttributeError(n)
        return virt._Null(n)


class Canvas:
    def __init__(self, fig):
        self.fig = fig

    def draw(self):
        w = kernel.WORLD
        self.fig.drawn.append([(list(l.x), list(l.y)) for l in self.fig.ax.lines])
        if w is not None and w.current is not None and 'canvas' in w.data:
            w.point('draw')

    draw_idle = draw

    def flush_events(self):
        pass


class Fig:
    def __init__(self):
        self.ax, self.drawn, self.open = Ax(), [], True
        self.canvas = Canvas(self)

    def shut(self):
        self.open = False

    def __getattr__(self, n):
        if n.startswith('__') or n in ('ax', 'drawn', 'open', 'canvas'):
            raise AttributeError(n)
        return virt._Null(n)


def subplots():
    w = kernel.WORLD
    f = Fig()
    w.data.setdefault('figs', []).append(f)
    return f, f.ax


class Pipe_:
    def __init__(self, wr):
        self.wr = wr

    def close(self):
        self.wr.ev.append('closed')


def _writer():
    """ The movie writer records what is asked of it. """
    import matplotlib.animation as ani
    base = ani.FFMpegWriter

    def __init__(self, fps=5, codec=None, bitrate=None, extra_args=None, metadata=None):
        self.ev, self.fps = [], fps
        w = kernel.WORLD
        if w is not None:
            w.data.setdefault('writers', []).append(self)

    def setup(self, fig, outfile, dpi=None):
        self.ev.append('setup')
        self.fig, self.outfile, self.dpi = fig, outfile, dpi

    def grab_frame(self, **kw):
        self.ev.append('frame')

    def finish(self):
        self.ev.append('finish')
        self.cleanup()

    base.__init__, base.setup, base.grab_frame, base.finish = __init__, setup, grab_frame, finish
    base._frame_sink = lambda self: Pipe_(self)
    base.cleanup = lambda self: self.ev.append('closed')


_writer()

KINDS = {'kill': 'opt_kill', 'norm': 'opt_norm', 'crash': 'opt_crash', 'pause': 'pause', 'chkpt': 'chkpt'}
CALLS = {'kill': 'update_kill', 'norm': 'update_norm_terminate', 'crash': 'update_crash_terminate',
         'pause': 'update_pause', 'chkpt': 'update_checkpoint'}


def pts(line):
    return list(zip((float(i) for i in line.get_xdata()), (float(i) for i in line.get_ydata())))


def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))


def agree(got, want):
    return len(got) == len(want) and all(p[0] == q[0] and close(p[1], q[1]) for p, q in zip(got, want))


# ---- the scope alone ------------------------------------------------------------------------------------------------------
def running(raw):
    """ Running best; values which are no number never count as best. """
    out, best = [], NAN
    for x, y in raw:
        if best != best or y < best:
            best = y
        out.append((float(x), best))
    return out


def expect(raw, elite, log):
    r = running(raw) if elite else [(float(x), y) for x, y in raw]
    if log:
        r = [(x, NAN if y != y or y < 0 else -INF if y == 0 else INF if y == INF else math.log10(y)) for x, y in r]
    return r


def window(full, xmax, n):
    return [p for p in full if p[0] >= xmax - n], [p for p in full if p[0] > xmax - n]


def scope_seq(depth, ranges, vals, flushes=(1, 2, 3), logs=(False,), elites=(False, True), marks=('kill',), n_opts=2,
              steps=(1,), reload=False, movie=False):
    def fn(ctx):
        from glompo.core.scope import GloMPOScope
        ctx.w.data['canvas'] = subplots
        rng, log, elite, every = (ctx.pick(ranges, 'x_range'), ctx.pick(logs, 'log'), ctx.pick(elites, 'elitism'),
                                  ctx.pick(flushes, 'per flush'))
        kw = dict(record_movie=True) if movie else {}
        if movie:
            kw['movie_kwargs'] = ctx.pick((None, {}, {'outfile': 'mine.mp4'}, {'dpi': 50}), 'movie args')
            kw['writer_kwargs'] = ctx.pick((None, {'fps': 3}), 'writer args')
        s = GloMPOScope(x_range=rng, log_scale=log, elitism=elite, events_per_flush=every, **kw)
        fig = ctx.w.data['figs'][-1]
        trunc = rng if isinstance(rng, int) else None
        if isinstance(rng, tuple):
            lim = fig.ax.lim.get('x', ())
            ctx.true(tuple(lim[0] if len(lim) == 1 else lim) == rng, 'range', f'the axis shows {lim}, asked was {rng}')
        if movie:
            from pathlib import Path
            s.setup_moviemaker(*ctx.pick(((), (Path(ctx.dir),)), 'movie dir'))
            ctx.true(s.is_setup, 'movie', 'not set up')
        raw, marked, x, since, draws = {}, {k: [] for k in marks}, 0, 0, len(fig.drawn)
        for i in range(1, n_opts + 1):
            s.add_stream(i, 'Type' if i > 1 else None)
            raw[i] = []
        ctx.true(s.n_streams == n_opts and sorted(s.opt_streams) == list(range(1, n_opts + 1)), 'streams',
                 f'{s.n_streams} streams {sorted(s.opt_streams)}')
        events, fresh = 0, False
        for n in range(depth):
            op = ctx.pick(('pt',) + tuple(marks) + (('reload',) if reload else ()), 'op')
            if op == 'reload':
                if ctx.dir and n + 1 < depth:
                    s.checkpoint_save(ctx.dir)
                    before = {i: pts(l) for i, l in s.opt_streams.items()}
                    m0 = {k: pts(s.gen_streams[KINDS[k]]) for k in marks}
                    s = GloMPOScope()
                    s.load_state(ctx.dir)
                    fig = s.fig
                    draws, since, events = len(fig.drawn), 0, 0
                    fresh = True
                    ctx.true(before == {i: pts(l) for i, l in s.opt_streams.items()}
                             and m0 == {k: pts(s.gen_streams[KINDS[k]]) for k in marks}, 'restored',
                             'the picture loaded is not the one saved')
                    continue
                raise Stop
            i = ctx.pick(range(1, n_opts + 1), 'opt')
            had = {k: pts(l) for k, l in s.opt_streams.items()}
            if op == 'pt':
                x += ctx.pick(steps, 'step')
                v = ctx.pick(vals, 'fx')
                raw[i].append((x, v))
                s.update_optimizer(i, (x, v))
            else:
                last = had[i][-1] if had[i] else None
                getattr(s, CALLS[op])(i)
                if last:
                    marked[op].append(last)
                elif raw[i] and not trunc:
                    ctx.fail('lost', f'optimizer {i} has no data')
            events += 1
            since += 1
            drew = len(fig.drawn) - draws
            draws = len(fig.drawn)
            if drew > 1 or (drew and since < every and events > every and not fresh):
                ctx.fail('flush', f'{drew} redraws after {since} events, asked is one in {every}')
            elif not drew and since > every:
                ctx.fail('flush', f'no redraw after {since} events, asked is one in {every}')
            if drew:
                since, fresh = 0, False
            for j in raw:
                full = expect(raw[j], elite, log)
                got = pts(s.opt_streams[j])
                if not trunc:
                    ok = agree(got, full)
                else:
                    lo, hi = window(full, x, trunc)
                    ok = len(got) >= len(hi) and agree(got, full[len(full) - len(got):])
                    if drew:
                        ok = ok and (len(got) in (len(lo), len(hi)))
                if not ok:
                    ctx.fail('points', f'optimizer {j} is shown as {got}, it was {full} (up to {x})')
            for k in marks:
                if pts(s.gen_streams[KINDS[k]]) != marked[k] and not agree(pts(s.gen_streams[KINDS[k]]), marked[k]):
                    ctx.fail('marks', f'{k}: {pts(s.gen_streams[KINDS[k]])} instead of {marked[k]}')
            ctx.see(tuple(len(r) for r in raw.values()), drew, since)
        ctx.eq(s.x_max, x, 'x_max', 'farthest point')
        if movie:
            n = len(fig.drawn)
            s.generate_movie()
            s.close_fig()
            wr = [q for q in ctx.w.data['writers'] if q.ev]
            ev = wr[-1].ev if wr else []
            body = [e for e in ev if e != 'closed']
            ctx.true(len(wr) == 1 and body == ['setup'] + ['frame'] * len(fig.drawn) + ['finish'] and ev[-1] == 'closed'
                     and 'closed' not in ev[:ev.index('finish')] and len(fig.drawn) == n + 1, 'movie', f'{ev}')
            ctx.true(fig.open is False, 'figure', 'left open')
    return fn


def f_bad(ctx):
    """ What is not allowed is refused, and leaves no figure behind. """
    from glompo.core.scope import GloMPOScope
    ctx.w.data['canvas'] = subplots
    key, val, exc = ctx.pick([('x_range', (1, 1), ValueError), ('x_range', (2, 1), ValueError), ('x_range', 1, ValueError),
                              ('x_range', 0, ValueError), ('x_range', -3, ValueError), ('x_range', 2.5, TypeError),
                              ('x_range', 'a', TypeError), ('x_range', [0, 1], TypeError), ('y_range', (1, 1), ValueError),
                              ('y_range', (3, 1), ValueError), ('y_range', 4, TypeError), ('y_range', [0, 1], TypeError),
                              ('x_range', 2, None), ('x_range', (0, 0.5), None), ('y_range', (-1, 1), None),
                              ('x_range', None, None), ('y_range', None, None)], 'arg')
    if exc:
        ctx.raises(exc, lambda: GloMPOScope(**{key: val}), 'refuse', f'{key}={val}')
        ctx.true(all(not f.open for f in ctx.w.data['figs']), 'figure', 'left open')
    else:
        s = GloMPOScope(**{key: val})
        if val is not None and isinstance(val, tuple):
            lim = s.fig.ax.lim.get(key[0], ())
            ctx.true(tuple(lim[0] if len(lim) == 1 else lim) == val, 'range', f'{lim} instead of {val}')


def f_unset(ctx):
    """ A movie cannot be had without asking for it in time. """
    from glompo.core.scope import GloMPOScope
    ctx.w.data['canvas'] = subplots
    rec = ctx.flag('record')
    s = GloMPOScope(record_movie=rec, events_per_flush=1)
    s.add_stream(1)
    if rec:
        def go():
            for k in range(3):
                s.update_optimizer(1, (k, 1.0))
        ctx.raises(RuntimeError, go, 'movie', 'recording without setup')
    else:
        s.setup_moviemaker()
        ctx.true(not s.is_setup and ctx.warnings, 'movie', 'set up silently without a recording')
        n = len(ctx.warnings)
        s.generate_movie()
        ctx.true(len(ctx.warnings) > n, 'movie', 'no warning that there is nothing to save')
    s.close_fig()


# ---- attached to runs -------------------------------------------------------------------------------------------------------
def w39(name, args=None, **kw):
    kw.setdefault('opts', [dict(script=[E] * 3), dict(script=[E] * 2)])
    kw.setdefault('spawn', ('n', 3))
    vis = dict(visualisation=True)
    if args is not None:
        vis['visualisation_args'] = args
    sc(name, canvas=True, setup=vis, **kw)


Z = ('z', 25)
w39('vplain')
w39('vfast', args=dict(events_per_flush=1, x_range=None))
w39('velite', args=dict(elitism=True), vals={1: [5, 7, 3], 2: [4, NAN, 9], 3: [INF, 2, 3]})
w39('vlog', args=dict(log_scale=True, events_per_flush=2), vals={1: [5, 0.0, 3], 2: [4, 1e9, 9], 3: [INF, 2, 3]})
w39('vtrunc', args=dict(x_range=3, events_per_flush=2))
w39('vlimits', args=dict(x_range=(0, 50), y_range=(0.0, 10.0)))
w39('vhunt', opts=[dict(script=[E] * 3)], vals=V, hunter='RecHunter([(1,2),(3,1)])')
w39('vdozen', opts=[dict(script=[E] * 2), dict(script=[E, ('x',)]), dict(script=[E] * 3)], spawn=('n', 12), max_jobs=5,
    vals={0: [9, 8, 7], 9: [7, 6, 5], 10: [4, 3, 2], 12: [3.5, 3.1, 1]}, hunter='RecHunter([(10,9),(9,1),(12,10),(10,1)])')
w39('vend', opts=[dict(script=[E, Z]), dict(script=[E, E, Z])], spawn=('n', 2))
w39('vcrash', opts=[dict(script=[E, Z, ('x',)]), dict(script=[E, ('m', 'hello'), E, Z])], spawn=('n', 2))
w39('vquit', opts=[dict(script=[E, ('q',)]), dict(script=[E])], spawn=('n', 3))
w39('vconv', opts=[dict(script=[E] * 8)], spawn=None, conv='MaxFuncCalls(4)')
w39('vmovie', args=dict(record_movie=True, events_per_flush=2))
w39('vmovint', args=dict(record_movie=True, events_per_flush=2), faults=('intmain',), fault_filter='intr',
    allow_survivors=1, expect_crash=True)
w39('vint', args=dict(events_per_flush=1), faults=('intmain',), fault_filter='intr', allow_survivors=1,
    expect_crash=True)
w39('vchk', opts=[dict(script=ez(3, 0)), dict(script=ez(2, 1.2))], spawn=('n', 2), chk=cc(checkpoint_iter_frequency=2))
w39('vchkk', opts=[dict(script=ez(4, 0))], spawn=('n', 3), vals=V, hunter='RecHunter([(1,2),(3,1)])',
    chk=cc(checkpoint_iter_frequency=2))
w39('vchkt', args=dict(x_range=3, events_per_flush=2, elitism=True), opts=[dict(script=ez(4, 0)), dict(script=ez(2, 1.2))],
    spawn=('n', 2), chk=cc(checkpoint_iter_frequency=3))


def o_scope(rec):
    cfg = rec.cfg
    s = rec.sessions[-1]
    if s.result is None:
        return
    m, w = s.mgr, rec.w
    sco = m.scope
    if sco is None:
        yield 'no-picture', 'there is no picture'
        return
    args = cfg['setup'].get('visualisation_args', {})
    trunc = args.get('x_range', 300)
    trunc = trunc if isinstance(trunc, int) else None
    elite, log = args.get('elitism', False), args.get('log_scale', False)
    hurt = rec.cfg.get('faults') and any(e[0] == 'fault' for e in w.log)
    rows = {}
    for c, i, x, f in s.L:
        rows.setdefault(i, []).append((c, f))
    xmax = max([c for c, _, _, _ in s.L] or [0])
    full = {i: expect(r, elite, log) for i, r in rows.items()}
    for i in range(1, m.o_counter + 1):
        if i not in sco.opt_streams:
            if hurt and i == m.o_counter and i not in rows:
                continue
            yield 'stream', f'optimizer {i} is not in the picture'
            continue
        got, want = pts(sco.opt_streams[i]), full.get(i, [])
        if trunc:
            hi = [p for p in want if p[0] > xmax - trunc]
            ok = len(got) >= len(hi) and agree(got, want[len(want) - len(got):])
        else:
            ok = agree(got, want)
        if not ok and not (hurt and agree(got, want[:-1])):
            yield 'points', f'optimizer {i} is shown as {got}, it was {want}'
    for i in sco.opt_streams:
        if not 1 <= i <= m.o_counter + bool(hurt):
            yield 'stream', f'an optimizer {i} is in the picture'
    owner = {p[0]: (i, k) for i, r in full.items() for k, p in enumerate(r)}

    def at(kind):
        """ The marks as (optimizer, how many evaluations it had shown). """
        out = []
        for x, y in pts(sco.gen_streams[KINDS[kind]]):
            i, k = owner.get(x, (None, None))
            if i is None or not close(full[i][k][1], y):
                return None, (x, y)
            out.append((i, k + 1))
        return out, None

    mk = {}
    for kind in KINDS:
        mk[kind], bad = at(kind)
        if bad:
            yield 'mark-place', f'a {kind} mark stands at {bad}, where no evaluation is'
            return
    if trunc and trunc < xmax:
        return
    ended = {}
    for e in w.log:
        if e[0] in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail'):
            ended.setdefault(e[1], set()).add(e[0])
    said = {}
    for e in w.log:
        if e[0] in ('msg', 'opt_crash'):
            said[e[1]] = said.get(e[1], 0) + 1
    # killed by a hunt (or the user)
    want = sorted((i, len(rows[i])) for i in m.hunt_victims if i in rows)
    if sorted(mk['kill']) != want and not hurt:
        yield 'kill', f"kill marks {mk['kill']}, victims {want}"
    for i, n in mk['norm']:
        if sum(j == i for j, _ in mk['norm']) > 1 or 'opt_end' not in ended.get(i, ()):
            yield 'norm', f'optimizer {i} is marked as converged; it ended by {ended.get(i)}'
    for i in set(j for j, _ in mk['crash']):
        if sum(j == i for j, _ in mk['crash']) > said.get(i, 0):
            yield 'crash', f'optimizer {i} is marked as crashed {mk["crash"]}, it said {said.get(i, 0)} things'
    for k, spec in ((i, cfg['opts'][(i - 1) % len(cfg['opts'])]['script']) for i in range(1, m.o_counter + 1)):
        if Z not in spec or hurt or k in m.hunt_victims or s.result.stats.get('end_cond') in ('GloMPO Crash',
                                                                                           'User Interrupt'):
            continue
        kind = 'crash' if ('x',) in spec else 'norm'
        if not any(i == k for i, _ in mk[kind]) and k in rows and 'converged' not in str(s.result.stats['end_cond']):
            yield kind, f'the end of optimizer {k} is not marked ({kind})'
    saved = [(e[1], e[2]) for e in w.log[s.first:] if e[0] == 'opt_saved' and e[2] > 0]
    tail = mk['chkpt'][len(mk['chkpt']) - len(saved):] if saved else []
    if sorted(tail) != sorted(saved) or (len(rec.sessions) == 1 and len(mk['chkpt']) != len(saved)):
        yield 'chkpt', f"checkpoint marks {mk['chkpt']}, saved were {saved}"
    for i, n in saved:
        if n > 1 and not any(j == i and q in (n - 1, n) for j, q in mk['pause']):
            yield 'pause', f"optimizer {i} was paused after {n} evaluations; marks {mk['pause']}"
    if len(rec.sessions) == 1 and sco.fig.open:
        yield 'figure', 'the figure was left open'
    if args.get('record_movie') and not cfg.get('chk'):
        wr = [q for q in w.data.get('writers', ()) if q.ev]
        ev = wr[-1].ev if wr else []
        body = [e for e in ev if e != 'closed']
        n = len(sco.fig.drawn)
        if not wr:
            if m.t_start is not None and not hurt:
                yield 'movie', 'no movie was made'
        elif body[0] != 'setup' or ev[-1] != 'closed' or body.count('setup') != 1 or 'closed' in ev[:ev.index('finish')
                                                                                 if 'finish' in ev else -1]:
            yield 'movie', f'{ev}'
        elif not hurt and (body != ['setup'] + ['frame'] * n + ['finish']
                           or str(wr[-1].outfile) != str(rec.wd / 'glomporecording.mp4')):
            yield 'movie', f'{ev} into {wr[-1].outfile}'
    how = [e for e in w.log[s.first:] if e[0] == 'fault']
    if how and s.result.stats.get('end_cond') != 'User Interrupt':
        yield 'interrupt', f"the user interrupted the run; it reports {s.result.stats.get('end_cond')!r}"


VIS = ['vplain', 'vfast', 'velite', 'vlog', 'vtrunc', 'vlimits', 'vhunt', 'vend', 'vcrash', 'vquit', 'vconv', 'vmovie']
_plain = units(VIS + [('vdozen', S0, S1)] + [(n, dict(f=1), dict(f=1, s=1)) for n in ('vint', 'vmovint')], [o_scope], S1, S2)


def _chk(tier):
    q = tier == 'quick'
    out = []
    for n in ('vchk', 'vchkk', 'vchkt'):
        for b in (P, T):
            k = f'{n}-{b[0] if isinstance(b, tuple) else b}'
            out.append(Unit(k, SC[k], S0 if q else S1, core + [o_scope], chk.resume_body))
    return out


def _seq(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    return [SeqUnit('points', scope_seq(4 + d, (None, 2, (0, 9)), (3.0, 1.0), marks=())),
            SeqUnit('marks', scope_seq(4 + d, (None,), (3.0,), flushes=(2,), elites=(False,), marks=tuple(KINDS))),
            SeqUnit('window', scope_seq(4 + d, (2,), (3.0, 1.0), flushes=(1, 2), elites=(False,), marks=('norm',), steps=(1, 3))),
            SeqUnit('odd', scope_seq(5 + d, (None,), (NAN, 2.0, INF, -1.0), flushes=(2,), n_opts=1, marks=())),
            SeqUnit('log', scope_seq(4 + d, (None, 2), (10.0, 1e-3, 0.0, INF), flushes=(2,), logs=(True,), n_opts=2,
                                     marks=())),
            SeqUnit('logneg', scope_seq(4 + d, (None,), (10.0, -1.0, NAN, 0.0), flushes=(2,), logs=(True,), elites=(False,),
                                        n_opts=1, marks=())),
            SeqUnit('reload', scope_seq(4 + d, (None, 2), (3.0, 1.0), flushes=(1, 2), marks=('kill', 'chkpt'),
                                        reload=True, n_opts=1)),
            SeqUnit('movie', scope_seq(4 + d, (None,), (3.0,), flushes=(1, 2, 3), elites=(False,), n_opts=1, marks=(),
                                       movie=True)),
            SeqUnit('refused', f_bad), SeqUnit('unset', f_unset)]


PROPS = {
    'P39': dict(units=lambda tier: _seq(tier) + _plain(tier) + _chk(tier)),
}
