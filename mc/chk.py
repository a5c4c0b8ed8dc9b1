"""Checkpoints under the scheduler: an observing manager, faults and crash points in the file system, resumed sessions."""
import hashlib
import io
import os
import pathlib
import random
import shutil
import sys
import tarfile
import tempfile
import warnings

import numpy as np
import tables
from pathlib import Path

from . import boot, kernel, scen
from . import opts as O
from glompo.core.manager import GloMPOManager

_fs = None  # the FS watcher of the execution in progress


# ---- every file-system operation of the manager during a checkpoint ----------------------------------------------------
class FS:
    """ Calls `before(op, path)` ahead of each operation below `root` performed by the main task in a checkpoint. """

    def __init__(self, root, before):
        self.root, self.before = str(root), before
        self.n = 0
        self.cleaning = 0
        self.busy = False


def _here(path):
    f = _fs
    if f is None or f.busy:
        return None
    w = kernel.WORLD
    if w is None or w.current is None or w.current is not w.tasks[0] or not w.data.get('in_chk'):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode()
    p = os.path.abspath(p)
    return p if p.startswith(f.root) else None


def _note(op, path):
    p = _here(path)
    if p is not None:
        _fs.n += 1
        _fs.busy = True
        try:
            _fs.before(op, p)
        finally:
            _fs.busy = False


def _patch():
    for name in ('mkdir', 'replace', 'rename', 'unlink', 'remove', 'rmdir', 'link', 'symlink', 'truncate', 'utime',
                 'chmod'):
        real = getattr(os, name)

        def wrapped(path, *a, _real=real, _name=name, **k):
            if k.get('dir_fd') is None and k.get('src_dir_fd') is None:
                _note(_name, path)
            if _name in ('replace', 'rename') and a:
                _note(_name + '-to', a[0])
            return _real(path, *a, **k)

        setattr(os, name, wrapped)
        acc = pathlib._NormalAccessor
        if name in acc.__dict__:
            setattr(acc, name, staticmethod(wrapped))
    # shutil binds names lazily through os; tempfile uses _os
    assert shutil.os is os and tempfile._os is os
    real_rmtree = shutil.rmtree

    def rmtree(path, *a, **k):
        f = _fs
        if f is not None:
            f.cleaning += 1
        try:
            return real_rmtree(path, *a, **k)
        finally:
            if f is not None:
                f.cleaning -= 1

    shutil.rmtree = rmtree

    def audit(event, args):
        if event == 'open' and _fs is not None and args and isinstance(args[0], (str, bytes)):
            mode = args[1] if len(args) > 1 else None
            flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
            if (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (mode is None and flags & 3):
                _note('open', args[0])

    sys.addaudithook(audit)


_patch()


# ---- managers ----------------------------------------------------------------------------------------------------------
class ObsManager(GloMPOManager):
    """ Notes when a checkpoint begins and ends and what the manager was at that moment. """

    def checkpoint(self):
        w = kernel.WORLD
        rec = w.data.get('rec')
        if rec is None or w.data.get('mute'):
            return super().checkpoint()
        d = dict(n=len(rec.chkpts), li0=len(w.log), f0=self.f_counter, before=listing(rec.chk_dir), exc=None,
                 t0=w.now, converged=bool(self.converged), session=len(rec.sessions),
                 running=scen.alive_slots(w)[1], warn0=len(rec.warnings), fault=None)
        rec.chkpts.append(d)
        O.emit('chk_begin', d['n'])
        w.data['in_chk'] = d
        try:
            super().checkpoint()
        except BaseException as e:
            d['exc'] = repr(e)
            raise
        finally:
            w.data['in_chk'] = None
            d.update(li1=len(w.log), t1=w.now, after=listing(rec.chk_dir), warns=rec.warnings[d['warn0']:],
                     attrs=attrs(self))
            if rec.cfg.get('summary') == 3:
                note_file(rec, d, self)
            O.emit('chk_end', d['n'])
            new = [k for k in d['after'] if d['before'].get(k) != d['after'][k]]
            d['new'] = new


def note_file(rec, d, m):
    """ With a log in a file: what had been recorded, and the file as a program would find it which starts after a
    crash at this moment. """
    log = m.opt_log
    L, meta = [], {}
    for i in range(1, m.o_counter + 1):
        if not log.has_iter_history(i):
            c = x = f = ()
        else:
            c, x, f = (list(log.get_history(i, k)) for k in ('call_id', 'x', 'fx'))
        for a, b, e in zip(c, x, f):
            L.append((int(a), i, tuple(float(q) for q in b), float(e)))
        meta[i] = {k: _md(log, i, k) for k in ('opt_type', 't_start', 't_stop', 'end_cond')}
    d.update(L=sorted(L), meta=meta)
    if (rec.wd / 'glompo_log.h5').exists():
        shutil.copy(str(rec.wd / 'glompo_log.h5'), str(rec.root / f'crash_{d["n"]}.h5'))


def attrs(m):
    return dict(f=m.f_counter, o=m.o_counter, conv=m.conv_counter, hunts=m.hunt_counter,
                victims=tuple(sorted(m.hunt_victims)), fx=m.result.fx,
                x=None if m.result.x is None else tuple(float(i) for i in m.result.x),
                origin=dict(m.result.origin) if m.result.origin else None, spawning=m.spawning_opts,
                last_hunt=m.last_hunt, nlog=len(m.opt_log), starts=len(m.dt_starts),
                settings={k: plain(getattr(m, k, None)) for k in SETTINGS})


SETTINGS = ('aggressive_kill allow_forced_terminations bounds end_timeout hunt_frequency incumbent_sharing is_log_detailed '
            'last_iter_checkpoint max_jobs n_parms opts_daemonic overwrite_existing proc_backend split_printstreams '
            'status_frequency summary_files visualisation working_dir checkpoint_control').split()


def plain(v):
    if hasattr(v, 'checkpoint_at_conv'):
        return {k: str(q) for k, q in vars(v).items() if not k.startswith('_')}
    return v if isinstance(v, (int, float, bool, str, type(None))) else str(v)


def listing(d):
    out = {}
    if d.is_dir():
        for f in sorted(d.iterdir()):
            s = f.stat()
            out[f.name] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return out


_ok_archives = {}


def archive_complete(path):
    """ Is it a readable archive with everything a resume needs? """
    b = Path(path).read_bytes()
    k = hashlib.sha1(b).digest()
    if k not in _ok_archives:
        try:
            with tarfile.open(fileobj=io.BytesIO(b), mode='r:gz') as t:
                names = set()
                for m in t.getmembers():
                    names.add(m.name.split('/')[0])
                    if m.isfile():
                        t.extractfile(m).read()
            _ok_archives[k] = names >= {'manager', 'opt_log', 'optimizers'} or f'has only {sorted(names)}'
        except Exception as e:
            _ok_archives[k] = repr(e)
        if len(_ok_archives) > 5000:
            _ok_archives.clear()
            return archive_complete(path)
    return _ok_archives[k]


def load(rec, path, cls=ObsManager, mute=True, **kw):
    """ Load one checkpoint into a new manager. Returns (manager, optimizers restored) """
    w = rec.w
    m = cls()
    w.data['loaded'] = got = {}
    w.data['mute'] = True
    try:
        m.load_checkpoint(path, **kw)
    finally:
        w.data['mute'] = False
        w.data['loaded'] = None
    return m, got


def stored(rec, m, got):
    """ What a just loaded manager holds. """
    d = dict(attrs(m), loaded=got, t_used=m.t_used, victim_why=dict(m.hunt_victims))
    log = m.opt_log
    L, lens = [], {}
    full = rec.cfg.get('summary', 2) == 2
    meta = {}
    for i in range(1, m.o_counter + 1):
        try:
            lens[i] = log.len(i)
        except Exception:
            lens[i] = None
        if full:
            c, x, f = (list(log.get_history(i, k)) for k in ('call_id', 'x', 'fx'))
            for a, b, e in zip(c, x, f):
                L.append((int(a), i, tuple(float(q) for q in b), e))
            meta[i] = {k: _md(log, i, k) for k in ('opt_type', 't_start', 't_stop', 'end_cond')}
    d.update(L=sorted(L), lens=lens, full=full, meta=meta, nopt=log.n_optimizers)
    return d


def _md(log, i, k):
    try:
        return log.get_metadata(i, k)
    except KeyError:
        return None


# ---- bodies ------------------------------------------------------------------------------------------------------------
def first_session(rec, cls=ObsManager):
    cfg = rec.cfg
    rec.w.data['rec'] = rec
    rec.loads = {}
    kw = scen.build_kwargs(cfg, rec.wd, rec.chk_dir)
    rec.kw = kw
    m = cls()
    s = rec.cur = scen.Session(rec, m)
    s.base = None
    rec.sessions.append(s)
    rec.mgr = m
    m.setup(**kw)
    scen.quiet(cfg, m)
    if cfg.get('spoil'):  # no checkpoint can be written
        if rec.chk_dir.exists():
            shutil.rmtree(str(rec.chk_dir))
        rec.chk_dir.write_text('in the way')
    s.result = m.start_manager()
    rec.result = s.result
    scen.end_session(rec, s)
    return s


def archives(rec):
    if not rec.chk_dir.is_dir():
        return []
    return sorted(f for f in rec.chk_dir.iterdir() if f.name.endswith('.tar.gz'))


def look_body(rec):
    """ One session; afterwards every checkpoint is loaded and examined. """
    first_session(rec)
    rec.cur = None
    for a in archives(rec):
        try:
            m, got = load(rec, a)
            rec.loads[a.name] = stored(rec, m, got)
        except (kernel.StopWorld, kernel.Divergence):
            raise
        except Exception as e:
            rec.loads[a.name] = dict(error=f'{e!r}')


def resume_body(rec):
    """ One session, then `resumes` sessions, each from any of the checkpoints which exist. """
    cfg, w = rec.cfg, rec.w
    rec.refusals = []
    reseed(cfg)
    first_session(rec)
    rec.file_owner = 1
    for n in range(cfg.get('resumes', 1)):
        rec.cur = None
        reseed(cfg)
        arch = archives(rec)
        if cfg.get('which'):
            arch = [a for a in arch if a.name in cfg['which'][n]]
        if not arch:
            return
        k = w.choose_value(len(arch), 'archive') if len(arch) > 1 else 0
        kw = dict(cfg.get('resume', {}))
        if 'conv' in kw:
            kw['convergence_checker'] = O.RecChecker(eval(kw.pop('conv'), scen._ns()))
        if 'working_dir' in kw:
            kw['working_dir'] = scen.form(cfg, rec.root / kw['working_dir'])
        prepare = cfg.get('prepare')
        if prepare:
            PREPARE[prepare](rec, arch[k], n)
        if cfg.get('gap'):
            w.sleep(cfg['gap'])
        rec.t_load = w.now
        m, got = load(rec, scen.form(cfg, arch[k]), **kw)
        s = scen.Session(rec, m)
        s.archive = arch[k].name
        s.base = stored(rec, m, got)
        rec.loads[f'{n}:{s.archive}'] = s.base
        if cfg.get('summary') == 3:
            b, wi = s.base, window(rec, s.archive)
            b.update(full=True, L=wi['L'], meta=wi['meta'],
                     lens={i: sum(r[1] == i for r in wi['L']) for i in range(1, b['o'] + 1)})
        rec.sessions.append(s)
        rec.mgr = m
        s.chk_start = sorted(got)
        for i in got:
            w.data['slots'][i] = m._optimizer_packs[i].slots if i in m._optimizer_packs else 0
        rec.limit = m.max_jobs
        rec.cur = s
        scen.quiet(cfg, m)
        if cfg.get('summary') == 3 and must_refuse(rec, s.archive):
            refused(rec, s, m)
            continue
        s.result = m.start_manager()
        rec.result = s.result
        scen.end_session(rec, s)
        rec.file_owner = len(rec.sessions)


def reseed(cfg):
    """ The script of the user seeds the random number generators, as one does for reproducible runs. """
    if cfg.get('reseed'):
        random.seed(1)
        np.random.seed(1)


def must_refuse(rec, archive):
    """ Does the log file belong to something else than the session which made the checkpoint? """
    owner = getattr(rec, 'file_owner', 1)
    return owner is not None and owner != window(rec, archive)['session']


def refused(rec, s, m):
    f = rec.wd / 'glompo_log.h5'

    def content():
        try:
            return scen.read_file_log(f)
        except Exception:
            return f.read_bytes()

    before = content()
    s.refusal = None
    try:
        m.start_manager()
    except (kernel.StopWorld, kernel.Divergence):
        raise
    except Exception as e:
        s.refusal = repr(e)
    s.untouched = repr(content()) == repr(before)
    rec.sessions.remove(s)
    rec.refusals.append(s)
    rec.cur = None


def _crash(rec, a, n):
    """ The session was killed right after this checkpoint. """
    d = window(rec, a.name)
    shutil.copy(str(rec.root / f'crash_{d["n"]}.h5'), str(rec.wd / 'glompo_log.h5'))
    rec.file_owner = d['session']


def _last_crash(rec, a, n):
    """ The session was killed right after its last checkpoint. """
    last = max((d for d in rec.chkpts if (rec.root / f'crash_{d["n"]}.h5').exists()), key=lambda d: d['n'])
    shutil.copy(str(rec.root / f'crash_{last["n"]}.h5'), str(rec.wd / 'glompo_log.h5'))
    rec.file_owner = last['session']


def _gone(rec, a, n):
    (rec.wd / 'glompo_log.h5').unlink()
    rec.file_owner = None


def _foreign(rec, a, n):
    """ The log of another run, something else altogether, or no log at all. """
    f = rec.wd / 'glompo_log.h5'
    f.unlink()
    k = rec.w.choose_value(3, 'foreign')
    if k == 2:
        f.write_text('my notes')
    else:
        with tables.open_file(str(f), 'w') as h:
            if k == 0:
                h.root._v_attrs.checksum = 'a' * 20
                h.root._v_attrs.f_counter = 100
            h.create_group('/', 'optimizer_9')
            h.create_table('/optimizer_9', 'iter_hist', {'call_id': tables.UInt32Col(pos=0),
                           'x': tables.Float64Col(shape=2, pos=1), 'fx': tables.Float64Col(pos=2)})
            h.root.optimizer_9.iter_hist.append([(100, (1, 2), 3.0)])
            h.create_vlarray('/optimizer_9', 'messages', atom=tables.VLUnicodeAtom())
    rec.file_owner = -1


PREPARE = {'crash': _crash, 'last_crash': _last_crash, 'gone': _gone, 'foreign': _foreign}


# ---- oracles -----------------------------------------------------------------------------------------------------------
def window(rec, name):
    """ The checkpoint call which made this archive (the last one that wrote it). """
    c = [d for d in rec.chkpts if name in d.get('new', ())]
    return c[-1] if c else None


def o_cut(rec):
    """ P11 """
    log = rec.w.log
    for name, d in sorted(getattr(rec, 'loads', {}).items()):
        if ':' in name:
            continue
        if 'error' in d:
            yield 'unloadable', f'{name} cannot be loaded: {d["error"]}'
            continue
        got = {i: v['nev'] for i, v in d['loaded'].items()}
        for i, n in got.items():
            if d['lens'].get(i) != n:
                yield 'cut', f'{name}: optimizer {i} is stored after {n} evaluations, the stored log has ' \
                             f'{d["lens"].get(i)}'
        if d['nlog'] != d['f']:
            yield 'cut-count', f'{name}: counter {d["f"]}, stored log {d["nlog"]}'
        if d['nopt'] != d['o']:
            yield 'cut-opts', f'{name}: {d["o"]} optimizers counted, {d["nopt"]} in the stored log'
        L = d['L']
        if d['full']:
            if [c for c, _, _, _ in L] != list(range(1, len(L) + 1)) or len(L) != d['f']:
                yield 'cut-ids', f'{name}: stored evaluations {[c for c, _, _, _ in L]}, counter {d["f"]}'
            from .oracles import _check_best
            yield from _check_best(L, d['fx'], d['x'] or (), d['origin'], name)
        w = window(rec, name)
        if w is None:
            continue
        saved = {}
        for e in log[w['li0']:w['li1']]:
            if e[0] == 'opt_saved':
                saved[e[1]] = e[2]
        if saved != got:
            yield 'cut-members', f'{name}: optimizers saved {saved}, restored {got}'
        # everybody else was finished or killed when the state was written
        end = max([n for n in range(w['li0'], w['li1']) if log[n][0] in ('opt_saved', 'task_saved')], default=w['li1'])
        done = set()
        rets, evals = {}, {}
        for e in log[:end]:
            if e[0] in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail'):
                done.add(e[1])
            elif e[0] == 'fault' and e[1] == 'kill':
                done.add(int(e[2][3:]))
            elif e[0] == 'ret':
                rets[e[1]] = e[2]
            elif e[0] == 'eval':
                evals[e[1]] = e[2]
        for i in range(1, d['o'] + 1):
            if i not in got and i not in done and i not in d['victims']:
                yield 'cut-missing', f'{name}: optimizer {i} was running but is not in the checkpoint'
            if i in got and i in d['victims']:
                yield 'cut-killed', f'{name}: optimizer {i} had been killed but is in the checkpoint'
            ec = d['meta'].get(i, {}).get('end_cond') if d['full'] else None
            if i in got and ec is not None:
                yield 'cut-ended', f'{name}: optimizer {i} is in the checkpoint although it ended: {ec!r}'
            if i not in got and d['full'] and ec is None and i not in d['victims']:
                yield 'cut-no-end', f'{name}: optimizer {i} is not in the checkpoint but has no recorded end'
            if i not in d['victims'] and (d['full'] or i in got) and (d['lens'].get(i) or 0) < rets.get(i, 0):
                if not any(e[0] == 'fault' and e[2] == f'Opt{i}' for e in log[:end]):
                    yield 'cut-lost', f'{name}: optimizer {i} had finished {rets[i]} evaluations, ' \
                                      f'{d["lens"].get(i)} are stored'
        a = w['attrs']
        for k in ('f', 'o', 'conv', 'hunts', 'victims', 'fx', 'x', 'origin', 'spawning', 'last_hunt', 'starts'):
            if not (a[k] == d[k] or a[k] != a[k]):
                yield 'cut-' + k, f'{name}: {k} was {a[k]} when the checkpoint was made, stored is {d[k]}'


def o_quiet(rec):
    """ P12: nobody evaluates while the state is being written; everybody is released afterwards. """
    log = rec.w.log
    for d in rec.chkpts:
        if 'li1' not in d:
            continue
        win = log[d['li0']:d['li1']]
        marks = [n for n, e in enumerate(win) if e[0] in ('opt_saved', 'task_saved')]
        if marks:
            bad = [e for e in win[marks[0]:marks[-1]] if e[0] in ('eval', 'ret')]
            if bad:
                yield 'not-paused', f'optimizer {bad[0][1]} evaluated while checkpoint {d["n"]} was being written'
        if any(e[0] == 'fault' and e[1] == 'kill' for e in log[:d['li1']]):
            continue  # an optimizer may have died before its part was complete
        if d['exc'] is None and not d['new'] and not d.get('fault') and not rec.cfg.get('spoil') and \
                rec.cfg.get('chk', {}).get('keep_past', -1):
            yield 'no-checkpoint', f'checkpoint {d["n"]} produced nothing: {d["warns"]}'
        if (d['warns'] and any('Checkpointing failed' in t for t in d['warns'])) and not d.get('fault') and \
                not rec.cfg.get('spoil'):
            yield 'failed', f'checkpoint {d["n"]} failed: {d["warns"]}'


def o_resumed(rec):
    """ P13 """
    log = rec.w.log
    for s in rec.sessions:
        b = s.base
        if b is None or s.result is None:
            continue
        what = f'resumed from {s.archive}'
        win = log[s.first:s.last]
        src = [d for d in rec.chkpts if s.archive in d.get('new', ()) and d['li1'] <= s.first]
        if src:
            a = src[-1]['attrs']
            for k in ('f', 'o', 'conv', 'hunts', 'victims', 'fx', 'x', 'origin', 'last_hunt', 'spawning', 'starts'):
                if not (a[k] == b[k] or a[k] != a[k]):
                    yield 'state-' + k, f'{what}: {k} was {a[k]} when the checkpoint was made, the run resumes with {b[k]}'
            for k, v in a['settings'].items():
                if v != b['settings'][k] and k not in rec.cfg.get('resume', {}):
                    yield 'setting', f'{what}: {k} was {v}, the run resumes with {b["settings"][k]}'
        seq, starts = {}, {}
        for e in win:
            if e[0] == 'eval':
                seq.setdefault(e[1], []).append(e[2])
            elif e[0] == 'opt_start':
                starts.setdefault(e[1], []).append(e)
        for i, ev in seq.items():
            if i <= b['o'] and i not in b['loaded']:
                yield 'zombie', f'{what}: optimizer {i}, which had finished, evaluates again'
                continue
            n0 = b['loaded'][i]['nev'] if i in b['loaded'] else 0
            if ev != list(range(n0 + 1, n0 + 1 + len(ev))):
                yield 'not-continued', f'{what}: optimizer {i} was stored after evaluation {n0}, continues with {ev}'
        for i, ss in starts.items():
            if len(ss) > 1:
                yield 'started-twice', f'{what}: optimizer {i} was started {len(ss)} times'
            if i <= b['o'] and i not in b['loaded']:
                yield 'zombie', f'{what}: optimizer {i}, which had finished, is started again'
            elif i <= b['o'] and not (ss[0][6] and ss[0][7] == b['loaded'][i]['nev']):
                yield 'not-restarted', f'{what}: optimizer {i} starts as {ss[0]}'
            if i > b['o'] and ss[0][6]:
                yield 'false-restart', f'{what}: new optimizer {i} is marked as restarted'
        inits = [e[1] for e in win if e[0] == 'opt_init']
        if inits != list(range(b['o'] + 1, b['o'] + 1 + len(inits))):
            yield 'ids', f'{what}: after {b["o"]} optimizers new ones are numbered {inits}'
        m = s.mgr
        if not s.checks and not win:
            continue
        for i in b['loaded']:
            if i not in starts and not m.converged and s.result.stats.get('end_cond') not in \
                    ('GloMPO Crash', 'User Interrupt'):
                yield 'not-started', f'{what}: optimizer {i} was not started again'
        c0 = s.checks[0] if s.checks else None
        if c0 and (c0['f'] < b['f'] or c0['o'] < b['o'] or c0['conv'] < b['conv'] or c0['hunts'] < b['hunts'] or
                   not set(b['victims']) <= set(c0['victims'])):
            yield 'counters', f'{what}: counters fell from {b} to {c0}'
        if not b['full']:
            continue
        L = s.L
        from .oracles import same_rows, normal_end, ended_count
        if [c for c, _, _, _ in L] != list(range(1, len(L) + 1)):
            yield 'call-ids', f'{what}: evaluation numbers are {[c for c, _, _, _ in L]}'
        if not same_rows(L[:b['f']], b['L']):
            yield 'history', f'{what}: the record before the checkpoint changed from {b["L"]} to {L[:b["f"]]}'
        if m.f_counter != len(L) or len(m.opt_log) != len(L):
            yield 'f-counter', f'{what}: {len(L)} evaluations recorded, counter {m.f_counter}, log {len(m.opt_log)}'
        per = {}
        for _, o, x, f in L:
            per.setdefault(o, []).append((int(x[0]), int(x[1])))
        for o, rows in per.items():
            if rows != [(o, k) for k in range(1, len(rows) + 1)]:
                yield 'order', f'{what}: record of optimizer {o} is {rows}'
        vals = rec.kw['task']
        for _, o, x, f in L:
            v = vals.value(x)
            if not (v == f or v != v and f != f):
                yield 'value', f'{what}: {x} is recorded with {f}, its value is {v}'
        if normal_end(rec, s):
            for i, ev in seq.items():
                if i not in m.hunt_victims and len(per.get(i, ())) < ev[-1]:
                    yield 'lost', f'{what}: optimizer {i} has finished evaluation {ev[-1]}, ' \
                                  f'{len(per.get(i, ()))} are recorded'
            for i in b['loaded']:
                sp = next((p for p in rec.kw['opt_selector'].avail_opts if p[1].get('marker') ==
                           b['loaded'][i]['marker']), None)
                if sp is None or i in m.hunt_victims or s.meta[i].get('end_cond') != f'done {i}':
                    continue
                n = sum(a[1] if a[0] == 'B' else a[0] in 'eb' for a in sp[1]['script']) + \
                    (sp[1].get('linger') or (0, 0))[1]
                if len(per.get(i, ())) != n:
                    yield 'incomplete', f'{what}: optimizer {i} ended by itself with {len(per.get(i, ()))} of {n} ' \
                                        f'evaluations'
        for i, md in b['meta'].items():
            if md['end_cond'] is not None and {k: s.meta[i].get(k) for k in md} != md:
                yield 'meta', f'{what}: the end of optimizer {i} changed from {md} to {s.meta[i]}'
            if md['t_start'] != s.meta[i].get('t_start') or md['opt_type'] != s.meta[i].get('opt_type'):
                yield 'meta', f'{what}: the start of optimizer {i} changed from {md} to {s.meta[i]}'
        n = ended_count(s)
        if n != m.conv_counter:
            yield 'conv-counter', f'{what}: {n} optimizers are recorded as converged, the counter says ' \
                                  f'{m.conv_counter}'
        if not set(b['victims']) <= set(m.hunt_victims):
            yield 'victims', f'{what}: killed were {b["victims"]}, now {m.hunt_victims}'
        freq = rec.cfg.get('hunt_frequency', 1)
        if rec.cfg.get('hunter'):
            due, last, best, bo = 0, 0, float('inf'), 0
            for c, o, x, f in L:
                if f < best:
                    best, bo = f, o
                if bo and c - last >= freq:
                    due, last = due + 1, c
            if m.hunt_counter != due:
                yield 'hunt-count', f'{what}: {due} hunts were due, {m.hunt_counter} took place'


def o_time(rec):
    """ P13: the time used before the checkpoint counts. """
    for s in rec.sessions:
        b = s.base
        if b is None:
            continue
        w = window(rec, s.archive)
        if w is None:
            continue
        par = rec.sessions[w['session'] - 1]
        t0 = par.mgr.t_start
        if t0 is None:
            continue
        pre = par.base['t_used'] if par.base else 0
        lo, hi = pre + w['t0'] - t0 - 0.05, pre + w['t1'] - t0 + 0.05
        if not lo <= b['t_used'] <= hi:
            yield 'time-used', f'resumed from {s.archive}: {b["t_used"]} s are said to be used, it was {lo} to {hi}'


# ---- FS faults -----------------------------------------------------------------------------------------------------------
def temp_files(rec, d):
    """ Names in the checkpoint directory which nobody asked for. """
    known = set(d['before'])
    return [n for n in d['after'] if n not in known and not n.endswith('.tar.gz')]


def faulty(body, faults=True, snapshots=True):
    """ Wrap a body: at every file operation of a checkpoint the directory is examined (crash point), and an error may be
    injected (fault choice). """

    def run(rec):
        global _fs
        w = rec.w
        rec.points = 0

        def before(op, path):
            d = w.data['in_chk']
            rec.points += 1
            if snapshots:
                examine(rec, d, op, path)
            if faults and d['fault'] is None and not _fs.cleaning and not rec.fault_done:
                rel = os.path.relpath(path, str(rec.root))
                if w.choose(('', 'f'), f'fs {op} {os.path.basename(path)}'):
                    d['fault'] = (op, rel)
                    rec.fault_done = True
                    w.log.append(('fsfault', op, rel, w.steps))
                    raise OSError(28, 'No space left on device', path)

        rec.fault_done = False
        rec.problems = []
        _fs = FS(rec.root, before)
        try:
            body(rec)
        finally:
            _fs = None

    return run


def examine(rec, d, op, path):
    """ What a program would find which starts after a crash at this moment. """
    ok_new = False
    for f in sorted(rec.chk_dir.glob('*.tar.gz')) if rec.chk_dir.exists() else ():
        if f.name in rec.cfg.get('foreign', ()):
            continue
        r = archive_complete(f)
        st = f.stat()
        if r is not True:
            rec.problems.append(('torn', f'{f.name} is not a complete checkpoint before {op} of '
                                         f'{os.path.basename(path)}: {r}'))
        elif d['before'].get(f.name) != (st.st_ino, st.st_mtime_ns, st.st_size):
            ok_new = True
    if not ok_new:
        gone = [n for n in d['before'] if not (rec.chk_dir / n).exists()]
        if gone:
            rec.problems.append(('pruned-early', f'{gone} were removed before the new checkpoint was in place'))


def o_atomic(rec):
    """ P14 """
    seen = set()
    for k, m in getattr(rec, 'problems', ()):
        if k not in seen:
            seen.add(k)
            yield k, m
    for d in rec.chkpts:
        if 'after' not in d:
            continue
        t = temp_files(rec, d)
        if t:
            yield 'left-over', f'checkpoint {d["n"]} ({d["fault"]}) left {t}'
        if not d['new']:
            gone = [n for n in d['before'] if n not in d['after']]
            if gone:
                yield 'pruned', f'checkpoint {d["n"]} failed ({d["fault"]}) but removed {gone}'
        stubborn = rec.cfg.get('stubborn')
        if not d['new'] and d['fault'] is None and d['exc'] is None and not stubborn:
            yield 'nothing', f'checkpoint {d["n"]} was not made: {d["warns"]}'
        if not d['new'] and (d['fault'] is not None or stubborn) and d['exc'] is None:
            if not any('heckpoint' in t for t in d['warns']):
                yield 'silent', f'checkpoint {d["n"]} failed at {d["fault"]} without a warning'
    for a in archives(rec) if rec.chk_dir.exists() else ():
        r = archive_complete(a)
        if r is not True and a.name not in rec.cfg.get('foreign', ()):
            yield 'torn', f'{a.name} is not a complete checkpoint at the end: {r}'
        elif rec.cfg.get('stubborn'):
            r = settings_kept(rec, a)
            if r is not True:
                yield 'torn', f'{a.name} does not hold all settings of the run: {r}'


def settings_kept(rec, path):
    try:
        m, _ = load(rec, path)
    except Exception as e:
        return f'loading failed with {e!r}'
    def kind(x):
        return (type(x).__name__, kind(x.inner) if hasattr(x, 'inner') else None)
    for name in ("killing_conditions", "convergence_checker", "opt_selector", "x0_generator"):
        want = kind(rec.kw[name]) if rec.kw.get(name) is not None else (type(None).__name__, None)
        got = kind(getattr(m, name, None))
        if want != got:
            return f'{name} is {got} instead of {want}'
    return True


def o_failed(rec):
    """ P12: a failed checkpoint ends the run only if that was asked for. """
    strict = rec.cfg.get('chk', {}).get('raise_checkpoint_fail')
    for d in rec.chkpts:
        if d.get('exc') and not strict:
            yield 'raised', f'a failed checkpoint raised {d["exc"]}'
        if strict and d.get('fault') and not d.get('exc') and not d.get('new'):
            yield 'not-raised', f'a checkpoint failed at {d["fault"]} silently although errors were to be raised'
    for s in rec.sessions:
        if s.result is None:
            continue
        crash = s.result.stats.get('end_cond') == 'GloMPO Crash'
        if crash and not any(d.get('exc') for d in rec.chkpts):
            yield 'crash', f'the run ended in an error: {[x for x in rec.warnings if "Caught" in x][:1]}'
        if crash and not strict:
            yield 'crash', 'a failed checkpoint ended the run'
        if strict and any(d.get('exc') for d in rec.chkpts) and not crash:
            yield 'not-crashed', 'a failed checkpoint was to end the run'
