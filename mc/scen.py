"""Runs the real GloMPOManager through one scenario in one World and collects what is observable."""
import os
import random
import logging
import shutil
import sys
import tarfile
import warnings
from pathlib import Path

from . import boot, kernel, virt
from .explore import Outcome
from .kernel import World
from . import opts as O

import numpy as np
import dill
import tables
import glompo.convergence as C
import glompo.generators as G
import glompo.hunters as H
import glompo.opt_selectors as S
from glompo.opt_selectors.spawncontrol import IterSpawnStop, NOptimizersSpawnStop
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager

E = ('e',)
ED = ('e', 'd')


class Sink:
    closed = False

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        pass


def _ns():
    d = {k: getattr(C, k) for k in C.__all__}
    d.update({k: getattr(H, k) for k in H.__all__})
    d.update(RecHunter=O.RecHunter, StubbornHunter=O.StubbornHunter, StubbornChecker=O.StubbornChecker)
    return d


class Rec:
    """ Everything observed about one execution. """

    def __init__(self, cfg, world):
        self.cfg, self.w = cfg, world
        self.mgr = None
        self.result = None
        self.sessions = []      # dicts: mgr, result, first log index
        self.checks = []        # per manager pass
        self.hunts = []
        self.selects = []
        self.warnings = []
        self.slot_peak = []
        self.exc = None
        self.chkpts = []

    # --- derived -------------------------------------------------------------------------------------------------
    def events(self, kind):
        return [e for e in self.w.log if e[0] == kind]


def make_opt(spec, marker=None):
    cls = getattr(O, spec.get('cls', 'ScriptOpt'))
    init = dict(script=list(spec['script']), workers=spec.get('workers', 1), marker=marker)
    init.update(spec.get('init', {}))
    return cls, init, dict(spec['call']) if 'call' in spec else None


def form(cfg, path):
    """ The way in which a scenario names a path. """
    how = cfg.get('paths')
    return path if not how else {'str': str, 'rel': lambda p: Path(os.path.relpath(str(p))),
                                 'relstr': lambda p: os.path.relpath(str(p))}[how](path)


def build_kwargs(cfg, wd, chk_dir):
    opts = [make_opt(s, f'kind{n}') for n, s in enumerate(cfg['opts'])]
    spawn = cfg.get('spawn')
    allow = None
    if spawn:
        allow = {'n': NOptimizersSpawnStop, 'f': IterSpawnStop}[spawn[0]](spawn[1])
    kind = cfg.get('selector', 'cycle')
    if kind == 'cycle':
        sel = S.CycleSelector(*opts, allow_spawn=allow)
    elif kind == 'chain':
        sel = S.ChainSelector(*opts, fcall_thresholds=cfg['thresholds'], allow_spawn=allow)
    else:
        sel = S.RandomSelector(*opts, allow_spawn=allow)
    ns = _ns()
    wd, chk_dir = form(cfg, wd), form(cfg, chk_dir)
    kw = dict(
        task=getattr(O, cfg.get('task', 'ScriptTask'))(cfg.get('vals')),
        bounds=[(0, 100), (0, 100)],
        opt_selector=O.RecSelector(sel),
        working_dir=wd,
        overwrite_existing=True,
        max_jobs=cfg.get('max_jobs', 2),
        backend=cfg.get('backend', 'processes'),
        convergence_checker=O.RecChecker(eval(cfg.get('conv', 'MaxSeconds(session_max=1e9)'), ns)),
        x0_generator=O.RecGenerator(),
        killing_conditions=O.ObsHunter(eval(cfg['hunter'], ns)) if cfg.get('hunter') else None,
        hunt_frequency=cfg.get('hunt_frequency', 1),
        share_best_solutions=cfg.get('share', False),
        summary_files=cfg.get('summary', 2),
        is_log_detailed=cfg.get('detailed', False),
        force_terminations_after=cfg.get('force', -1),
        aggressive_kill=cfg.get('aggressive', False),
        end_timeout=cfg.get('end_timeout'),
        split_printstreams=cfg.get('split', False),
        status_frequency=cfg.get('status', 600),
        visualisation=False,
    )
    if cfg.get('chk') is not None:
        kw['checkpoint_control'] = CheckpointingControl(checkpointing_dir=chk_dir, **cfg['chk'])
    kw.update(cfg.get('setup', {}))
    return kw


def alive_slots(w):
    slots = w.data['slots']
    tot = 0
    ids = []
    for c in w.data.get('children', ()):
        t = c._task
        if t is not None and not t.done and not t.killed and c.name.startswith('Opt'):
            i = int(c.name[3:])
            ids.append(i)
            tot += slots.get(i, 0)
    return tot, ids


def hook(rec):
    w = rec.w
    state = dict(seen=0)

    def h(_):
        log = w.log
        # track slots of optimizers from their construction
        i = state['seen']
        while i < len(log):
            if log[i][0] == 'opt_init':
                w.data['slots'][log[i][1]] = log[i][2]
            elif log[i][0] == 'opt_start':
                w.data['slots'][log[i][1]] = log[i][8]
            i += 1
        state['seen'] = i
        tot, ids = alive_slots(w)
        if tot > rec.peak:
            rec.peak = tot
            rec.peak_ids = ids
        lim = rec.limit
        if tot > lim and not rec.over:
            rec.over.append((tot, lim, tuple(ids), w.steps))
    return h


class Session:
    def __init__(self, rec, mgr):
        self.rec, self.mgr = rec, mgr
        self.first = len(rec.w.log)
        self.t0 = rec.w.now
        self.plot0 = len(rec.w.data.get('plot', ()))
        self.result = None
        self.checks = []
        self.hunts = []
        self.selects = []
        self.started_sel = 0
        self.chk_start = None
        self.hist_available = False
        self.limit = rec.limit
        self.slots = None
        self.spawning0 = True


def observers(rec):
    w = rec.w

    asks = rec.cfg.get('fault_filter') in ('user', 'userany') or rec.cfg.get('files')

    def look():
        return tuple(sorted(p.name for p in rec.wd.iterdir())) if asks else ()

    def on_check(m, r):
        s = rec.cur
        if s is None or m is not s.mgr:
            return
        if m.t_start is None:
            return
        alive = alive_slots(w)[1]
        s.checks.append(dict(step=w.steps, t=w.now, r=bool(r), f=m.f_counter, o=m.o_counter, conv=m.conv_counter,
                             hunts=m.hunt_counter, victims=tuple(m.hunt_victims), fx=m.result.fx,
                             x=None if m.result.x is None else tuple(m.result.x),
                             origin=None if not m.result.origin else dict(m.result.origin),
                             nlog=len(m.opt_log), alive=alive, nsel=len(s.selects), li=len(w.log),
                             files=look(), text=m.convergence_checker.str_with_result() if r else None))

    def on_hunt(log, hunter, victim, r):
        s = rec.cur
        if s is None:
            return
        m = s.mgr
        s.hunts.append(dict(step=w.steps, t=w.now, f=m.f_counter, hunter=hunter, victim=victim, r=r,
                            best=log.get_best_iter()['opt_id'], n=len(log), nvict=log.len(victim),
                            dead=victim in m.hunt_victims, li=len(w.log), alive=alive_slots(w)[1],
                            seen={i: tuple(log.get_history(i, 'fx')) for i in (hunter, victim)}
                            if rec.cfg.get('watch') else None))

    def on_select(m, slots, r):
        s = rec.cur
        if s is None:
            return
        cfg = None
        if r:
            import copy
            cfg = (r[0].__name__, copy.deepcopy(r[1]), copy.deepcopy(r[2]))
        s.selects.append(dict(step=w.steps, slots=slots, r=None if r is None else (False if r is False else cfg),
                              alive=alive_slots(w), li=len(w.log), f=m.f_counter, o=m.o_counter))

    w.data.update(on_check=on_check, on_hunt=on_hunt, on_select=on_select)


def run_cfg(cfg, prefix, body=None):
    """ One execution of cfg under the given choices. Returns Rec. """
    w = World(prefix, fine=cfg.get('fine', False), horizon=cfg.get('horizon', 6000), eof=cfg.get('eof', False),
              timeouts=cfg.get('timeouts', True), faults=cfg.get('faults', ()))
    rec = Rec(cfg, w)
    rec.peak, rec.peak_ids, rec.over, rec.limit = 0, (), [], cfg.get('max_jobs', 2)
    rec.cur = None
    w.data['slots'] = {}
    if cfg.get('report'):
        w.data['plot'] = []
    if cfg.get('chatty'):
        w.data['chatty'] = 1
    if cfg.get('canvas'):
        from . import p_scope
        w.data['canvas'] = p_scope.subplots
    if cfg.get('booms'):
        w.data['booms'] = cfg['booms']
    random.seed(1)
    np.random.seed(1)
    rec.root = Path(boot.scratch())
    wd = rec.wd = rec.root / 'wd'
    chk = rec.chk_dir = rec.root / 'chk'
    wd.mkdir()
    for name, text in cfg.get('files', {}).items():
        (wd / name).write_text(text)
    observers(rec)
    w.hook = hook(rec)
    w.fault_filter = FAULTS.get(cfg.get('fault_filter', 'any'))(rec)
    w.do_fault_base = w.do_fault
    user_n = [0]

    def do_fault(how, t):
        if how.startswith('user:'):
            (wd / how[5:]).write_text('')
            w.log.append(('user', how[5:], w.steps))
        else:
            w.log.append(('fault', how, t.name, t.label, w.steps))
            w.do_fault_base(how, t)
    w.do_fault = do_fault

    def main():
        (body or default_body)(rec)

    saved = sys.stdout, sys.stderr
    saved_show = warnings.showwarning
    saved_filters = warnings.filters[:]
    cwd = os.getcwd()
    warnings.showwarning = lambda m, c, *a, **k: rec.warnings.append(str(m))
    warnings.simplefilter('always')
    rec.console = Sink(), Sink()
    if cfg.get('debug'):
        talk(rec, True)
    sys.stdout, sys.stderr = rec.console
    try:
        os.chdir(str(rec.root))
        if cfg.get('paths'):
            (rec.root / 'away').mkdir(exist_ok=True)
            w.data['away'] = str(rec.root / 'away')
        w.run(main)
    finally:
        sys.stdout, sys.stderr = saved
        os.chdir(cwd)
        warnings.showwarning = saved_show
        if cfg.get('debug'):
            talk(rec, False)
        warnings.filters[:] = saved_filters
        getattr(warnings, '_filters_mutated', lambda: None)()
    mt = w.tasks[0]
    rec.finished = mt.done and mt.exc is None
    rec.exc = mt.exc
    if isinstance(mt.exc, kernel.Divergence):
        raise mt.exc
    return rec


class Talk(logging.Handler):
    """ Formats every record, as any real handler does. """

    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def emit(self, record):
        self.format(record)
        self.rec.talked += 1

    def createLock(self):
        self.lock = None


def talk(rec, on):
    """ Logging at its most detailed level, or off. """
    log = logging.getLogger('glompo')
    if on:
        rec.talked = 0
        rec.talk = Talk(rec)
        log.addHandler(rec.talk)
    else:
        log.removeHandler(rec.talk)
    log.propagate = not on
    log.setLevel(logging.DEBUG if on else logging.NOTSET)
    logging.disable(logging.NOTSET if on else logging.CRITICAL)


def cleanup(rec):
    shutil.rmtree(str(rec.root), ignore_errors=True)
    m = rec.mgr
    for s in rec.sessions:
        f = getattr(s.mgr.opt_log, 'pytab_file', None)
        try:
            if f is not None and f.isopen:
                f.close()
        except Exception:
            pass


def default_body(rec):
    cfg = rec.cfg
    kw = build_kwargs(cfg, rec.wd, rec.chk_dir)
    rec.kw = kw
    mgr = GloMPOManager()
    s = rec.cur = Session(rec, mgr)
    rec.sessions.append(s)
    rec.mgr = mgr
    mgr.setup(**kw)
    quiet(cfg, mgr)
    s.result = mgr.start_manager()
    rec.result = s.result
    end_session(rec, s)


def watch_log(mgr):
    """ Note the moment at which each evaluation is recorded. """
    put = mgr.opt_log.put_iteration

    def put_iteration(res):
        put(res)
        O.emit('accept', res.opt_id, tuple(float(i) for i in res.x), res.fx)
    mgr.opt_log.put_iteration = put_iteration


def quiet(cfg, mgr):
    """ Keep all histories in memory (trajectory-plot mode) without writing the report files. """
    if cfg.get('summary', 2) == 2 and not cfg.get('report'):
        mgr.summary_files = 0
    if cfg.get('watch'):
        watch_log(mgr)


def end_session(rec, s):
    """ What is left alive the moment the run returns. """
    s.survivors = [c.name for c in rec.w.data.get('children', ())
                   if c._task is not None and not c._task.done and not c._task.killed]
    s.last = len(rec.w.log)
    s.t1 = rec.w.now
    s.wd_after = tuple(sorted(p.name for p in rec.wd.iterdir())) if rec.wd.exists() else ()
    s.slots = dict(rec.w.data['slots'])
    d = rec.wd / 'glompo_optimizer_printstreams'
    s.prints = {p.name: p.read_text() for p in d.iterdir()} if d.is_dir() else None
    snapshot_log(s)


def snapshot_log(s):
    m = s.mgr
    L = []
    meta = {}
    msgs = {}
    log = m.opt_log
    stor = getattr(log, '_storage', {})
    s.hist_available = s.rec.cfg.get('summary', 2) >= 2
    if s.rec.cfg.get('summary', 2) == 3:
        try:
            L, meta, msgs, s.file_attrs = read_file_log(s.rec.wd / 'glompo_log.h5')
        except (OSError, tables.exceptions.HDF5ExtError, tables.exceptions.NoSuchNodeError, KeyError) as e:
            s.file_error = repr(e)
    elif s.hist_available:
        for i in range(1, m.o_counter + 1):
            c, x, f = (list(log.get_history(i, k)) for k in ('call_id', 'x', 'fx'))
            for a, b, d in zip(c, x, f):
                L.append((int(a), i, tuple(float(q) for q in b), d))
            s_meta = {}
            for k in ('opt_id', 'opt_type', 't_start', 't_stop', 'end_cond'):
                try:
                    s_meta[k] = log.get_metadata(i, k)
                except KeyError:
                    pass
            meta[i] = s_meta
            try:
                msgs[i] = list(stor[i]['messages'])
            except KeyError:
                msgs[i] = None
    s.L = sorted(L)
    s.meta, s.msgs = meta, msgs


def read_file_log(path):
    """ What a log file contains: rows, metadata, messages, attributes of the file. """
    L, meta, msgs = [], {}, {}
    with tables.open_file(str(path), 'r') as f:
        for g in f.iter_nodes('/', 'Group'):
            i = int(g._v_name.split('_')[1])
            meta[i] = {k: g._v_attrs[k] for k in ('opt_id', 'opt_type', 't_start', 't_stop', 'end_cond')
                       if k in g._v_attrs}
            msgs[i] = [str(m) for m in g['messages'].read()]
            if 'iter_hist' in g:
                for r in g['iter_hist'].read():
                    L.append((int(r['call_id']), i, tuple(float(q) for q in r['x']), float(r['fx'])))
        at = f.root._v_attrs
        attrs = {k: at[k] for k in at._v_attrnamesuser}
    return sorted(L), meta, msgs, attrs


# ---- fault filters: where a fault kind may strike ---------------------------------------------------------------------
def _running(rec):
    s = rec.cur
    return s is not None and s.result is None and s.mgr.t_start is not None and s.mgr.converged is False


def ff_any(rec):
    def f(w, kind, t):
        if kind == 'kill':
            return t.kind == 'process' and t.label != 'start' and not t.in_server
        if kind == 'interrupt':
            return t is w.tasks[0] and _running(rec) and not t.in_server and w.data.get('ints', 0) == 0 \
                and sys.exc_info()[0] is None
        if kind.startswith('user:'):
            return t is w.tasks[0] and _running(rec) and not (rec.wd / kind[5:]).exists() and \
                t.label in ('is_alive', 'poll', 'ChunkingQueue.get', 'recv')
        return False
    return f


def ff_user(rec):
    """ User files appear once in every pass: the first time the manager asks whether a child is alive. """
    state = {}

    def f(w, kind, t):
        if t is not w.tasks[0] or not _running(rec) or t.in_server or (rec.wd / kind[5:]).exists():
            return False
        n = len(rec.cur.checks)
        if state.setdefault(n, t.opcount) != t.opcount:
            return False
        return True
    return f


def ff_userany(rec):
    """ ... before any step of the manager. """
    def f(w, kind, t):
        return t is w.tasks[0] and _running(rec) and not t.in_server and not (rec.wd / kind[5:]).exists()
    return f


def ff_intr(rec):
    """ Before any step of the manager from the start of the run up to its end, closing of the children included. """
    def f(w, kind, t):
        s = rec.cur
        if t is not w.tasks[0] or s is None or s.result is not None or t.in_server or t.inject is not None:
            return False
        m = s.mgr
        return m.t_start is not None and (len(m.dt_ends) < len(m.dt_starts) or m.converged is False)
    return f


FAULTS = {'intr': ff_intr, 'any': ff_any, 'user': ff_user, 'userany': ff_userany}


class Unit:
    """ A scenario with its oracles, as explore.py wants it. """

    def __init__(self, name, cfg, budget, oracles, body=None):
        self.name, self.cfg, self.budget, self.oracles, self.body = name, dict(cfg, name=name), budget, oracles, body

    def run(self, prefix):
        rec = run_cfg(self.cfg, prefix, self.body)
        try:
            viol = []
            for o in self.oracles:
                for key, msg in o(rec):
                    viol.append((key, msg))
            stats = {'outcomes': {outcome_key(rec)}}
            return Outcome(rec.w.trace, viol, rec.w.steps, rec.w.states, sample=None if rec.w.trace and prefix else
                           dict(scenario=self.name, events=len(rec.w.log), steps=rec.w.steps), stats=stats)
        finally:
            cleanup(rec)


def outcome_key(rec):
    s = rec.sessions[-1] if rec.sessions else None
    if s is None or s.result is None:
        return hash((rec.finished, tuple(k for k, _ in rec.w.problems)))
    return hash((rec.finished, tuple(getattr(s, 'L', ())), s.result.fx, str(s.result.stats), s.mgr.conv_counter,
                 tuple(s.mgr.hunt_victims)))
