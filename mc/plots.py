"""The pictures a log draws (P29): every sequence of recordings against a plain list of them."""
import datetime
import math
from pathlib import Path

from .seq import SeqUnit
from .p_log import TYPES, NAN, INF, memory, on_file

from glompo.common.namedtuples import IterationResult
from glompo.common.wrappers import needs_optional_package  # noqa

ENDS = {None: '', 'GloMPO Termination\nHunter: 2\nReason: \nEnough': 'x', 'Optimizer convergence: done': '*',
        'Normal termination (Reason unknown)': '*', 'Error termination (exitcode 1).': 's',
        'Traceback (most recent call last): oops': 's', 'GloMPO Convergence': '', 'Forced GloMPO Termination': 'x'}


def pictures(make, depth, values, ends=(None,), n_opts=2, drops=False):
    def fn(ctx):
        log = make(True)
        ctx.w.data['plot'] = rec = []
        if make is on_file:
            log.open(str(Path(ctx.dir) / 'log.h5'), 'w', 'abc')
        rows = []
        # all optimizers are known beforehand; one of them may not have evaluated anything
        for o in range(1, n_opts + 1):
            log.add_optimizer(o, TYPES[o], datetime.datetime(2020, 1, o))
        for i in range(depth):
            o = ctx.pick(range(0, n_opts + 1), 'opt')
            if o == 0:
                break
            f = ctx.pick(values, 'fx')
            if not log.has_iter_history(o):
                log.add_iter_history(o, {})
            log.put_iteration(IterationResult(o, [float(i), -2.0 * i], f, ()))
            rows.append((o, [float(i), -2.0 * i], f))
        end = {}
        for o in range(1, n_opts + 1):
            end[o] = ctx.pick(ends, 'end') if o == 1 else None
            if end[o]:
                log.put_metadata(o, 'end_cond', end[o])
        if drops and ctx.flag('drop'):
            log.clear_cache(1)
        ask = ctx.pick(('plain', 'best', 'log', 'logbest', 'trials', 'trial2', 'again'), 'picture')
        if 'best' in ask and any(f != f for _, _, f in rows):
            return  # a running minimum of undefined values is refused
        if ask.startswith('tria'):
            log.plot_optimizer_trials(Path(ctx.dir), 2 if ask == 'trial2' else None)
            want = [2] if ask == 'trial2' else list(range(1, n_opts + 1))
            saved = [str(a[0]) for p, a, k in rec if p.endswith('.savefig')]
            ctx.eq(saved, [str(Path(ctx.dir) / f'opt{o}_parms.png') for o in want], 'files', 'pictures saved')
            lines = [a for p, a, k in rec if p.endswith('ax.plot')]
            ctx.eq(len(lines), len(want), 'plot', 'curves')
            for o, a in zip(want, lines):
                got = [[float(v) for v in x] for x in a[-1]]
                ctx.eq(got, [x for q, x, _ in rows if q == o], 'plot', f'parameters of optimizer {o}')
            ctx.note(ask, len(rows))
            return
        if ask == 'again':
            log.plot_trajectory(Path(ctx.dir) / 'first.png', True, True) if not any(f != f for _, _, f in rows) else 0
            del rec[:]
            ask = 'plain'
        log.plot_trajectory(Path(ctx.dir) / 'p.png', 'log' in ask, 'best' in ask)
        saved = [str(a[0]) for p, a, k in rec if p.endswith('.savefig')]
        ctx.eq(saved, [str(Path(ctx.dir) / 'p.png')], 'files', 'pictures saved')
        calls = [(a, k) for p, a, k in rec if p.endswith('ax.plot')]
        curves = [a for a, k in calls if hasattr(a[0], '__len__')]
        marks = [(int(a[0]), float(a[1]), k.get('marker', '')) for a, k in calls if not hasattr(a[0], '__len__')]
        if not ctx.eq(len(curves), n_opts, 'plot', 'curves'):
            return
        due = []
        for o in range(1, n_opts + 1):
            xs = [i + 1 for i, r in enumerate(rows) if r[0] == o]
            ys = [r[2] for r in rows if r[0] == o]
            if 'best' in ask:
                ys = [min(ys[:i + 1]) for i in range(len(ys))]
            if 'log' in ask:
                ys = [math.copysign(1, y) * math.log10(abs(y)) if y == y and y and abs(y) < INF else
                      NAN if not y or y != y else y for y in ys]
            gx, gy = [int(v) for v in curves[o - 1][0]], [float(v) for v in curves[o - 1][1]]
            ok = gx == xs and len(gy) == len(ys) and all(a != a and b != b or a == b or abs(a - b) < 1e-9
                                                        for a, b in zip(gy, ys))
            ctx.true(ok, 'plot', f'optimizer {o} is drawn as {gx} {gy}, it was {xs} {ys}')
            if end[o] and xs and ENDS[end[o]]:
                due.append((xs[-1], ys[-1], ENDS[end[o]]))
        same = len(due) == len([m for m in marks if m[2]]) and all(
            a[0] == b[0] and a[2] == b[2] and (a[1] != a[1] and b[1] != b[1] or a[1] == b[1] or abs(a[1] - b[1]) < 1e-9)
            for a, b in zip([m for m in marks if m[2]], due))
        ctx.true(same, 'mark', f'marks {marks}, expected {due}')
        if make is on_file:
            log.close()
        ctx.see(ask, tuple(rows), end[1])
        ctx.note(ask, end[1], len(rows))
    return fn


def units29(tier):
    d = 1 if tier == 'thorough' else 0
    return [SeqUnit('pictures', pictures(memory, 3 + d, (1.0, -20.0, NAN, INF, 0.0)), {}),
            SeqUnit('pictures-ends', pictures(memory, 2 + d, (1.0, -20.0), tuple(ENDS)), {}),
            SeqUnit('pictures-drops', pictures(memory, 3 + d, (5.0, 3e6), drops=True, n_opts=3), {}),
            SeqUnit('pictures-file', pictures(on_file, 2 + d, (5.0, -3e6), (None, 'Optimizer convergence: done'), drops=True), {})]
