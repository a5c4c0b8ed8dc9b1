"""Loading checkpoints: overrides, redistribution of slots, sources of the task."""
import itertools
import json
import os
import re

from . import chk as c
from . import kernel
from . import opts as O
from . import oracles as o
from . import scen
from .p_chk import cc, ez, A3, B2, I1, I2
from .p_run import P, T, SC, sc, core
from .scen import E, Unit
from .seq import SeqUnit

import glompo.convergence as C
import glompo.hunters as H
import glompo.opt_selectors as S
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager

KEPT = ('aggressive_kill allow_forced_terminations bounds checkpoint_control checkpoint_history conv_counter '
        'convergence_checker dt_starts end_timeout f_counter hunt_counter hunt_frequency hunt_victims '
        'incumbent_sharing is_log_detailed killing_conditions last_hunt last_iter_checkpoint max_jobs n_parms '
        'o_counter opt_selector opts_daemonic overwrite_existing proc_backend result spawning_opts split_printstreams '
        'status_frequency summary_files visualisation working_dir x0_generator').split()


def canon(v):
    if isinstance(v, (set, frozenset)):
        return sorted(map(canon, v))
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (int, float, str, bool, type(None))):
        return repr(v)
    if type(v).__module__ in ('datetime', 'pathlib'):
        return str(v)
    if isinstance(v, CheckpointingControl):
        return {k: str(x) for k, x in vars(v).items() if k not in ('count',) and not k.startswith('_')}
    return type(v).__name__ + re.sub(' at 0x[0-9a-f]+', '', str(v))


def settings(m):
    return {k: canon(getattr(m, k)) for k in KEPT}


class NoteManager(c.ObsManager):
    def checkpoint(self):
        super().checkpoint()
        rec = kernel.WORLD.data.get('rec')
        if rec is not None and not kernel.WORLD.data.get('mute') and rec.chkpts:
            rec.chkpts[-1]['settings'] = settings(self)


def overrides(rec):
    """ name -> (arguments, attributes which must follow) """
    conv = O.RecChecker(C.MaxFuncCalls(5))
    gen, hunter, control = O.RecGenerator(), O.ObsHunter(O.RecHunter([(9, 9)])), \
        CheckpointingControl(checkpointing_dir=rec.root / 'other', checkpoint_iter_frequency=50)
    sel = O.RecSelector(S.CycleSelector(scen.make_opt(dict(script=[E, E]), 'kind7'), allow_spawn=scen.NOptimizersSpawnStop(4)))
    d = dict(max_jobs=9, hunt_frequency=7, status_frequency=3, aggressive_kill=True, is_log_detailed=True,
             split_printstreams=True, overwrite_existing=False, end_timeout=77, summary_files=1)
    out = {'none': ({}, {}), 'unknown': (dict(nonsense=5), {})}
    for k, v in d.items():
        out[k] = {k: v}, {k: v}
    for k, v in dict(convergence_checker=conv, x0_generator=gen, killing_conditions=hunter, opt_selector=sel,
                     checkpoint_control=control).items():
        out[k] = {k: v}, {k: v}
    out['killing-none'] = dict(killing_conditions=None), dict(killing_conditions=None)
    out['share'] = dict(share_best_solutions=True), dict(incumbent_sharing=True)
    out['noshare'] = dict(share_best_solutions=False), dict(incumbent_sharing=False)
    out['threads'] = dict(backend='threads'), dict(proc_backend=False, opts_daemonic=True)
    out['processes'] = dict(backend='processes'), dict(proc_backend=True, opts_daemonic=True)
    out['forced'] = dict(backend='processes_forced'), dict(proc_backend=True, opts_daemonic=False)
    out['force'] = dict(force_terminations_after=500), dict(allow_forced_terminations=True)
    out['noforce'] = dict(force_terminations_after=-1), dict(allow_forced_terminations=False)
    out['wd'] = dict(working_dir=rec.root / 'wd2'), dict(working_dir=(rec.root / 'wd2').resolve())
    out['wds'] = dict(working_dir=str(rec.root / 'wd3')), dict(working_dir=(rec.root / 'wd3').resolve())
    return out


def load_body(rec):
    cfg, w = rec.cfg, rec.w
    rec.bad = []
    c.first_session(rec, NoteManager)
    rec.cur = None
    arch = c.archives(rec)
    a = arch[w.choose_value(len(arch), 'archive') if len(arch) > 1 else 0]
    win = c.window(rec, a.name)
    kw, want = {}, {}
    if cfg.get('limits'):
        k = w.choose_value(len(cfg['limits']), 'max_jobs')
        kw['max_jobs'] = want['max_jobs'] = cfg['limits'][k]
        what = f'max_jobs={kw["max_jobs"]}'
    else:
        ov = overrides(rec)
        names = sorted(ov)
        picks = [names[w.choose_value(len(names), 'override')]]
        if cfg.get('pairs'):
            picks.append(names[w.choose_value(len(names), 'override 2')])
        for n in picks:
            if set(ov[n][0]) & set(kw):
                return
            kw.update(ov[n][0])
            want.update(ov[n][1])
        what = '+'.join(picks)
    rec.what = what
    slots = {i: w.data['slots'][i] for i in _members(rec, a)}
    lim = kw.get('max_jobs', rec.kw['max_jobs'])
    nch = len(w.data.get('children', ()))
    try:
        m, got = c.load(rec, a, cls=NoteManager, **kw)
    except (kernel.StopWorld, kernel.Divergence):
        raise
    except Exception as e:
        if type(e).__name__ != 'CheckpointingError':
            rec.bad.append(('error', f'{what}: loading {a.name} raised {e!r}'))
        elif not slots or lim >= len(slots):
            rec.bad.append(('refused', f'{what}: loading {a.name} with {len(slots)} optimizers was refused: {e!r}'))
        return
    if slots and lim < len(slots):
        rec.bad.append(('not-refused', f'{what}: {len(slots)} optimizers were accepted with {lim} slots'))
        return
    now, ref = settings(m), win['settings']
    for k in KEPT:
        v = canon(want[k]) if k in want else ref[k]
        if now[k] != v:
            rec.bad.append(('setting', f'{what}: {k} is {now[k]} after loading, expected {v}'))
        if k in want and isinstance(want[k], (C.BaseChecker, H.BaseHunter, S.BaseSelector, CheckpointingControl)) \
                and getattr(m, k) is not want[k]:
            rec.bad.append(('setting', f'{what}: {k} is not the object given'))
    if hasattr(m, 'nonsense'):
        rec.bad.append(('setting', f'{what}: an unknown argument was accepted'))
    if sorted(got) != sorted(slots):
        rec.bad.append(('members', f'{what}: optimizers {sorted(got)} were restored, the checkpoint has {sorted(slots)}'))
    # run it
    s = scen.Session(rec, m)
    s.archive = a.name
    s.base = None
    rec.sessions.append(s)
    rec.mgr = m
    s.chk_start = sorted(got)
    if sum(slots.values()) <= lim:
        new = slots
    else:
        new = {i: lim // len(slots) for i in slots}
    w.data['slots'].update(new)
    rec.limit, rec.peak = lim, 0
    s.limit, s.spawning0 = lim, m.spawning_opts
    rec.cur = s
    scen.quiet(rec.cfg, m)
    s.result = m.start_manager()
    rec.result = s.result
    scen.end_session(rec, s)
    starts = {e[1]: e for e in w.log[s.first:s.last] if e[0] == 'opt_start'}
    for i, n in new.items():
        if i in starts and starts[i][8] != n:
            rec.bad.append(('slots', f'{what}: optimizer {i} had {slots[i]} slots and was started with {starts[i][8]}, '
                                     f'expected {n}'))
    want_be = 'processes' if not m.opts_daemonic else 'threads'
    kind = 'process' if m.proc_backend else 'thread'
    for ch in w.data.get('children', ())[nch:]:
        t = ch._task
        if t is not None and ch.name.startswith('Opt'):
            if t.kind != kind:
                rec.bad.append(('backend', f'{what}: {ch.name} runs as {t.kind}'))
    for i, e in starts.items():
        if e[9] != want_be:
            rec.bad.append(('backend', f'{what}: optimizer {i} was told to use {e[9]}, expected {want_be}'))
    if 'convergence_checker' in kw and s.checks and s.checks[-1]['r'] is False and m.f_counter > 5:
        rec.bad.append(('conv', f'{what}: the new criterion was not used'))
    if m.summary_files == 1 and not (m.working_dir / 'glompo_manager_log.yml').exists():
        rec.bad.append(('report', f'{what}: no report in {m.working_dir}'))


def _members(rec, a):
    import tarfile
    with tarfile.open(str(a)) as t:
        return sorted(int(n.split('/')[1]) for n in t.getnames() if re.fullmatch(r'optimizers/\d+', n))


def o_load(rec):
    yield from rec.bad


sc('l1', opts=[A3, B2], spawn=('n', 3), chk=I2, max_jobs=2, hunter='RecHunter([(1,2)])', vals={0: [5.0, 4.0, 3.0]})
sc('l2', opts=[A3, B2], spawn=('n', 3), chk=cc(checkpoint_iter_frequency=1), max_jobs=2, share=True, force=1000)
sc('l3', be=('processes_forced',), opts=[A3, B2], spawn=('n', 3), chk=I2, max_jobs=2)
for ws in ((1,), (2,), (1, 1), (2, 1), (2, 2), (3, 1), (1, 1, 1), (2, 2, 2), (1, 2, 3), (4, 3), (2, 1, 1, 1)):
    sc('lw' + ''.join(map(str, ws)), opts=[dict(script=ez(3, 0.1 * n), workers=k) for n, k in enumerate(ws)],
       spawn=('n', len(ws) + 1), chk=cc(checkpoint_iter_frequency=2 * len(ws) - 1 if len(ws) > 1 else 1),
       max_jobs=sum(ws), limits=list(range(1, sum(ws) + 2)))


# ---- sources of the task --------------------------------------------------------------------------------------------------
class Plain:
    def __init__(self, mark):
        self.mark = mark

    def __call__(self, x):
        return 1.0


class BadLoad(Plain):
    """ Can be pickled, but not unpickled. """

    def __reduce__(self):
        return _explode, ()


def _explode():
    raise RuntimeError('cannot be restored')


class NoPickle(Plain):
    def __reduce__(self):
        raise TypeError('cannot be pickled')


class Saves(NoPickle):
    def checkpoint_save(self, path):
        (path / 'mytask').write_text(json.dumps(self.mark))


class SavesBadly(NoPickle):
    def checkpoint_save(self, path):
        raise RuntimeError('no space')


class Both(Plain):
    def checkpoint_save(self, path):
        (path / 'mytask').write_text(json.dumps(self.mark))


def tasks(ctx):
    from pathlib import Path
    cls = ctx.pick([Plain, BadLoad, NoPickle, Saves, SavesBadly, Both], 'task')
    force = ctx.flag('force_task_save')
    loader = ctx.pick(['none', 'good', 'raises', 'not callable', 'reads'], 'task_loader')
    arg = ctx.pick(['none', 'good', 'not callable'], 'task argument')
    d = Path(ctx.dir)
    sel = S.CycleSelector(scen.make_opt(dict(script=[E])))
    m = GloMPOManager()
    m.setup(task=cls('orig'), bounds=[(0, 1)] * 2, opt_selector=sel, working_dir=d, max_jobs=2,
            checkpoint_control=CheckpointingControl(checkpoint_at_init=True, checkpointing_dir=d / 'chk',
                                                    naming_format='x', force_task_save=force))
    a = d / 'chk' / 'x.tar.gz'
    if not ctx.true(a.exists(), 'no-checkpoint', f'{ctx.warnings}'):
        return

    def load(path):
        if loader == 'raises':
            raise ValueError('loader')
        if loader == 'not callable':
            return 5
        if loader == 'reads':
            with open(os.path.join(str(path), 'mytask')) as f:
                return Plain('read ' + json.load(f))
        return Plain('loaded')

    kw = {}
    if loader != 'none':
        kw['task_loader'] = load
    if arg != 'none':
        kw['task'] = Plain('given') if arg == 'good' else 7
    saved = cls in (Saves, Both) and (force or cls is Saves)
    want = None
    if cls in (Plain, Both) and not force:
        want = 'orig'
    elif loader == 'good':
        want = 'loaded'
    elif loader == 'reads' and saved:
        want = 'read orig'
    elif arg == 'good':
        want = 'given'
    m2 = GloMPOManager()
    try:
        m2.load_checkpoint(a, **kw)
        got = m2.task.mark if callable(m2.task) else repr(m2.task)
    except Exception as e:
        got = None
        ctx.true(type(e).__name__ == 'CheckpointingError', 'task-error', f'raised {e!r}')
    ctx.note(want)
    ctx.eq(got, want, 'task', 'source of the task')


def lifecycle(ctx):
    """ A manager is initialised once, whichever way; a second attempt changes nothing. """
    from pathlib import Path
    d = Path(ctx.dir)
    sel = lambda k: S.CycleSelector(scen.make_opt(dict(script=[E], marker=k)))  # noqa

    def args(k):
        return dict(task=Plain(f'task{k}'), bounds=[(0, k)] * k, opt_selector=sel(k), working_dir=d / f'wd{k}', max_jobs=k,
                    hunt_frequency=7 * k, end_timeout=3 * k, summary_files=0, overwrite_existing=k == 2,
                    share_best_solutions=k == 2, backend='threads' if k == 2 else 'processes',
                    checkpoint_control=CheckpointingControl(checkpoint_at_init=True, checkpointing_dir=d / f'chk{k}',
                                                            naming_format=f'x{k}'))
    how = ctx.pick(('setup', 'new', 'load', 'load-class'), 'first')
    again = ctx.pick(('none', 'setup', 'load', 'start'), 'second')
    m = GloMPOManager()
    ctx.eq(m.is_initialised, False, 'initialised', 'new manager')
    if again == 'start':
        r = m.start_manager()
        ctx.true(not list(r.x or ()) and r.fx == float('inf'), 'not-initialised', f'a manager without settings returned {r}')
        ctx.eq(m.is_initialised, False, 'initialised', 'after starting nothing')
    if how == 'new':
        m = GloMPOManager.new_manager(**args(2))
    elif how == 'setup':
        m.setup(**args(2))
    else:
        GloMPOManager.new_manager(**args(2))
        if how == 'load':
            m.load_checkpoint(d / 'chk2' / 'x2.tar.gz', max_jobs=6)
        else:
            m = GloMPOManager.load_manager(d / 'chk2' / 'x2.tar.gz', max_jobs=6)
    a = args(2)
    want = dict(bounds=[tuple(b) for b in a['bounds']], max_jobs=6 if 'load' in how else 2, hunt_frequency=14, end_timeout=6,
                summary_files=0, overwrite_existing=True, incumbent_sharing=True, proc_backend=False, n_parms=2,
                working_dir=a['working_dir'].resolve(), f_counter=0, o_counter=0)
    for k, v in want.items():
        g = getattr(m, k)
        ctx.eq([tuple(b) for b in g] if k == 'bounds' else g, v, 'setting', k)
    ctx.eq(m.task.mark, 'task2', 'setting', 'task')
    ctx.eq(m.is_initialised, True, 'initialised', how)
    now, task = settings(m), m.task
    if again in ('setup', 'load'):
        GloMPOManager.new_manager(**args(3))
        if again == 'setup':
            m.setup(**args(4))
            ctx.true(not (d / 'chk4').exists(), 'twice', 'a second initialisation made a checkpoint')
        else:
            m.load_checkpoint(d / 'chk3' / 'x3.tar.gz', end_timeout=99)
        ctx.eq(settings(m), now, 'twice', 'settings after a second initialisation')
        ctx.true(m.task is task, 'twice', 'the task was replaced')
        ctx.eq(m.is_initialised, True, 'initialised', 'after the second attempt')
    ctx.note(how, again)


def o_core(rec):
    for f in core:
        for k, msg in f(rec):
            # the next optimizer does not fit into what was left to the run
            if k == 'crash' and 'Not enough worker slots' in msg and \
                    rec.limit < max(q.get('workers', 1) for q in rec.cfg['opts']):
                continue
            yield k, msg


def u(name, cfg=None, **b):
    return Unit(name, dict(SC[name], **(cfg or {})), dict(s=0, **b), [o_core, o.o_result, o.o_slots, o_load], load_body)


def units(tier):
    out = [SeqUnit('tasks', tasks), SeqUnit('lifecycle', lifecycle)]
    for k in sorted(SC):
        n = k.rsplit('-', 1)[0]
        if re.fullmatch(r'l\d|lw\d+', n):
            if tier == 'quick' and k.endswith('-threads') and n != 'l1':
                continue
            out.append(u(k))
            if tier != 'quick' and re.fullmatch(r'l\d', n):
                out.append(Unit(k + '-pairs', dict(SC[k], pairs=True), dict(s=0), [o_core, o.o_result, o.o_slots, o_load], load_body))
    return out


PROPS = {
    'P33': dict(units=units),
}
