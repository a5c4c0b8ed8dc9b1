"""What the run reports on disk (P29) and how it ends when it is interrupted or a plug-in fails (P34)."""
import datetime
import math
import re

import yaml

from . import chk, oracles as o, plots
from .p_run import S1, S2, S3, SC, V, E, NAN, INF, P, T, core, sc, units
from .scen import Unit

F1, S0 = dict(f=1), dict(s=0)


# ---- P29 --------------------------------------------------------------------------------------------------------------
def w29(name, lvl, **kw):
    kw.setdefault('spawn', ('n', 2))
    kw.setdefault('opts', [dict(script=[E] * 2), dict(script=[E] * 3)])
    sc(name, summary=lvl, report=True, watch=lvl < 2, **kw)


ez = chk_ez = lambda n: [E, ('z', 2.5)] * (n - 1) + [E]
BIG = {1: [1e9, 5.0, 1.0], 2: [3e8, 2.0, 7.0]}
for _l in range(4):
    w29(f'rep{_l}', _l)
    w29(f'repfmax{_l}', _l, conv='MaxFuncCalls(3) & MaxOptsStarted(1) | TargetCost(-5)')
    w29(f'rephunt{_l}', _l, opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3),
        hunter='RecHunter([(1,2)]) & MinFuncCalls(2) | RecHunter([(3,1)])')
    w29(f'repcrash{_l}', _l, opts=[dict(script=[E, ('x',)]), dict(script=[E, ('m', 'hello'), ('q',)])])
    w29(f'repnone{_l}', _l, opts=[dict(script=[])])
    w29(f'repodd{_l}', _l, vals={0: [NAN, INF]})
    w29(f'repint{_l}', _l, faults=('intmain',), fault_filter='intr', allow_survivors=1, expect_crash=True)
    w29(f'repboom{_l}', _l, booms=('selector', 'checker', 'generator', 'hunter'), expect_crash=True, allow_survivors=1,
        hunter='RecHunter([(1,2)])', vals=V)
for _l in (1, 2, 3):
    w29(f'repdozen{_l}', _l, opts=[dict(script=[E] * 2), dict(script=[E, ('x',)]), dict(script=[E] * 3)], spawn=('n', 12), max_jobs=5,
        vals={0: [9, 8, 7], 9: [7, 6, 5], 10: [4, 3, 2], 12: [3.5, 3.1, 1]}, hunter='RecHunter([(10,9),(9,1),(12,10),(10,1)])')
for _p in ('rel', 'str', 'relstr'):
    for _l in (1, 2, 3):
        w29(f'repmove{_p}{_l}', _l, be=T, paths=_p, opts=[dict(script=[E, ('c',), E]), dict(script=[E] * 3)])
    for _l in (2, 3):
        sc(f'represmove{_p}{_l}', be=T, opts=[dict(script=[E, ('c',), ('z', 2.5), E, ('z', 2.5), ('c',), E, ('z', 2.5), E]), dict(script=ez(2))],
           spawn=('n', 3), summary=_l, report=True, paths=_p, conv='MaxFuncCalls(3)', places=['wd2'],
           resume=dict(working_dir='wd2' if _l == 2 else 'wd', conv='MaxFuncCalls(50)'), chk=dict(checkpoint_at_conv=True, naming_format='c_%(count)'), which=[['c_000.tar.gz']])
w29('replog', 2, vals=BIG)
w29('repneglog', 2, vals={1: [-1.0, -3e7], 2: [-5.0, -2.0]})
w29('repnolog', 2, vals={1: [1e9, 5.0, -1.0], 2: [3e8, 2.0, 7.0]})
w29('repneg', 3, vals={1: [-1.0, -3], 2: [-INF, 0.0]})
w29('repmix', 2, setup=dict(bounds=[(0, 100), (0.0, 100.0)]))
w29('repbounds', 3, setup=dict(bounds=[(0, 100), (-1.5, 99)]))
w29('repplain', 1, task='plain_task')
w29('repchk', 1, be=T, chk=dict(checkpoint_iter_frequency=1, naming_format='c_%(count)'))
w29('repsplit', 1, split=True)
w29('repkeep', 1, files={'mine.txt': 'x', 'glompo_manager_log.yml': 'old'})
for _l in (2, 3):
    sc(f'repres{_l}', be=T, opts=[dict(script=ez(3)), dict(script=ez(2))], spawn=('n', 2), summary=_l, report=True,
       chk=dict(checkpoint_iter_frequency=2, naming_format='c_%(count)'), which=[['c_000.tar.gz']])
    sc(f'represconv{_l}', be=T, opts=[dict(script=ez(3)), dict(script=ez(3))], spawn=('n', 2), summary=_l, report=True,
       conv='MaxFuncCalls(3)', resume=dict(conv='MaxFuncCalls(50)'),
       chk=dict(checkpoint_at_conv=True, naming_format='c_%(count)'), which=[['c_000.tar.gz']])


def squeeze(t):
    return re.sub(r'[\s\[\]]+', '', str(t))


def eq(a, b):
    return a == b or a != a and b != b


def accepted(rec, s):
    if rec.cfg['summary'] >= 2:
        return [(i, j, x, f) for i, j, x, f in s.L]
    return [(n + 1, e[1], e[2], e[3]) for n, e in enumerate(e for e in rec.w.log if e[0] == 'accept')]


def parse_delta(t):
    m = re.fullmatch(r'(?:(-?\d+) days?, )?(\d+):(\d+):(\d+(?:\.\d+)?)', t)
    return (int(m.group(1) or 0) * 24 + int(m.group(2))) * 3600 + int(m.group(3)) * 60 + float(m.group(4))


def stamp(t):
    for f in ('%Y-%m-%d %H:%M:%S.%f', '%Y-%m-%d %H:%M:%S'):
        try:
            return datetime.datetime.strptime(str(t), f).timestamp()
        except ValueError:
            pass


def o_report(rec):
    cfg = rec.cfg
    s = rec.sessions[-1]
    if s.result is None:
        return
    m, r, lvl, w = s.mgr, s.result, cfg['summary'], rec.w
    if lvl == 3 and getattr(s, 'file_error', None):
        yield 'log-unreadable', f'the log file cannot be read: {s.file_error}'
        return
    acc = accepted(rec, s)
    best = o.best_of(acc)
    here = set(s.wd_after) - set(k for k in cfg.get('files', ()) if k == 'mine.txt')
    want = {n for n, q in (('glompo_manager_log.yml', lvl >= 1), ('glompo_log.h5', lvl >= 3),
                           ('glompo_optimizer_printstreams', cfg.get('split'))) if q}
    if here != want:
        yield 'files', f'level {lvl}: files {sorted(here)} instead of {sorted(want)}'
        return
    conds = r.stats.get('end_cond')
    how = {e[1] for e in w.log[s.first:] if e[0] == 'fault'} | {'boom' for e in w.log[s.first:] if e[0] == 'boom'}
    inits = [e[1] for e in w.log if e[0] == 'opt_init']
    nstart = max(inits or [0])

    def cond_ok(text, what):
        if conds == 'GloMPO Crash':
            if 'boom in' not in text:
                yield 'exit', f'{what}: the run ended in an error; reported is {text!r}'
        elif conds == 'User Interrupt':
            if 'User Interrupt' not in text:
                yield 'exit', f'{what}: the run was interrupted; reported is {text!r}'
        elif squeeze(text) != squeeze(conds):
            yield 'exit', f'{what}: {text!r} is reported, the result says {conds!r}'

    rows = {}
    wd = rec.root / cfg.get('resume', {}).get('working_dir', rec.wd.name)
    if lvl >= 1:
        try:
            with open(str(wd / 'glompo_manager_log.yml')) as f:
                d = yaml.load(f, Loader=yaml.FullLoader)
        except Exception as e:
            yield 'yaml', f'the summary cannot be read: {e!r}'
            return
        try:
            c = d['Counters']
            rows['Function Evaluations'] = c['Function Evaluations'], len(acc)
            rows['Hunts Started'] = c['Hunts Started'], m.hunt_counter
            rows['Started'] = c['Optimizers']['Started'], m.o_counter if how else nstart
            rows['Killed'] = c['Optimizers']['Killed'], len(m.hunt_victims)
            rows['Converged'] = c['Optimizers']['Converged'], m.conv_counter
            sol = d['Solution']
            rows['fx'] = sol['fx'], r.fx
            if acc and best < INF:
                rows['best'] = sol['fx'], best
            rows['x'] = sol['x'] or None, r.x or None
            rows['origin'] = sol['origin'], r.origin
            yield from cond_ok(sol['exit cond.'], 'summary')
            a, q = d['Assignment'], d['Settings']
            rows['Task'] = a['Task'], 'ScriptTask' if cfg.get('task', 'ScriptTask') == 'ScriptTask' else cfg['task']
            rows['Working Dir'] = a['Working Dir'], str(wd)
            rows['Max Jobs'] = q['Max Jobs'], cfg.get('max_jobs', 2)
            rows['Checker'] = squeeze(q['Convergence Checker']), squeeze(m.convergence_checker)
            rows['Hunt'] = squeeze(q['Hunt Conditions']), squeeze(m.killing_conditions)
            b = {}
            for k, v in q['Bounds'].items():
                for i in v:
                    b[i] = tuple(float(z) for z in re.findall(r'-?[\d.]+', k))
            bounds = [tuple(float(z) for z in bb) for bb in cfg.get('setup', {}).get('bounds', [(0, 100), (0, 100)])]
            rows['Bounds'] = [b.get(i) for i in range(len(b))], bounds
            rows['Selector'] = q['Optimizer Selector']['Selector'], 'RecSelector'
            rows['Generator'] = q['x0 Generator']['Generator'], 'RecGenerator'
            types = [v['type'] for v in q['Optimizer Selector']['Available Optimizers'].values()]
            rows['Available Optimizers'] = types, [sp.get('cls', 'ScriptOpt') for sp in cfg['opts']]
            rows['chk'] = 'Checkpointing' in d, cfg.get('chk') is not None
            if cfg.get('chk') is not None and 'Checkpointing' in d:
                rows['chk dir'] = d['Checkpointing']['Directory'], str(rec.chk_dir)
                rows['chk names'] = sorted(d['Checkpointing']['Checkpoints']), \
                    sorted(str(p) for p in rec.chk_dir.iterdir())
            per = a['Time']['Optimization Periods']
            rows['periods'] = len(per), len(rec.sessions)
            tot = 0
            for p, ses in zip(per, rec.sessions):
                st, en = stamp(p['Start']), stamp(p['End'])
                tot += en - st
                first = ses.checks[0]['t'] if ses.checks else ses.t1
                if not ses.t0 - 1e-3 <= st <= first + 1e-3:
                    yield 'time', f'a period begins at {st}, the run at {ses.t0}'
                lo = ses.checks[-1]['t'] if ses.checks else st
                if ses is s and not lo - 1e-3 <= en <= ses.t1 + 1e-3:
                    yield 'time', f'a period ends at {en}, the run between {lo} and {ses.t1}'
                if en < st or en > ses.t1 + 1e-3:
                    yield 'time', f'a period lasts from {st} to {en}; the session ended at {ses.t1}'
            last = stamp(per[-1]['End']) - stamp(per[-1]['Start'])
            if abs(parse_delta(a['Time']['Total']) - tot) > 1e-3:
                yield 'time', f"total {a['Time']['Total']}, the periods amount to {tot} s"
            if abs(parse_delta(a['Time']['Session']) - last) > 1e-3:
                yield 'time', f"session {a['Time']['Session']}, the last period lasted {last} s"
        except (KeyError, TypeError, AttributeError, IndexError) as e:
            yield 'summary-shape', f'{e!r} while reading the summary {d}'
    if lvl >= 3:
        at = s.file_attrs
        rows.update(n_evals=(at.get('n_evals'), len(acc)), n_hunts=(at.get('n_hunts'), m.hunt_counter),
                    n_opts_started=(at.get('n_opts_started'), m.o_counter),
                    n_opts_killed=(at.get('n_opts_killed'), len(m.hunt_victims)),
                    n_opts_conv=(at.get('n_opts_conv'), m.conv_counter), task=(at.get('task'), 'ScriptTask'),
                    working_dir=(at.get('working_dir'), str(wd)))
        bb = at.get('bounds')
        rows['h5 bounds'] = [tuple(float(z) for z in v) for v in bb] if bb is not None else None, \
            [tuple(float(z) for z in v) for v in cfg.get('setup', {}).get('bounds', [(0, 100), (0, 100)])]
        yield from cond_ok(at.get('exit_reason', ''), 'log file')
        f = m.opt_log.pytab_file
        if f is not None and f.isopen:
            yield 'log-open', 'the log file was left open'
    for k, (got, exp) in rows.items():
        if not (eq(got, exp) if isinstance(exp, float) else got == exp):
            yield 'number', f'{k}: reported {got!r}, true is {exp!r}'
    # the picture
    plot = w.data.get('plot', [])[s.plot0:]
    saved = [str(a[0]) for p, a, k in plot if p.endswith('.savefig')]
    if len(saved) != (lvl >= 2):
        yield 'plots', f'level {lvl}: pictures {saved}'
    elif saved:
        fin = [f for _, _, _, f in acc if math.isfinite(f)]
        log = bool(fin) and best < INF and max(fin) * best > 0 and max(fin) - best > 1e5
        name = str(wd / ('trajectories_log.png' if log else 'trajectories.png'))
        if saved[0] != name:
            yield 'plot-name', f'picture {saved[0]}, expected {name}'
        lines = [a for p, a, k in plot if p.endswith('ax.plot') and len(a) == 2 and hasattr(a[0], '__len__')]
        for i in range(1, m.o_counter + 1):
            xs, ys = [c for c, j, _, _ in acc if j == i], [f for _, j, _, f in acc if j == i]
            if log:
                ys = [math.copysign(1, y) * math.log10(abs(y)) if y else 0.0 for y in ys]
            if i > len(lines):
                if not xs and how:
                    continue
                yield 'plot', f'optimizer {i} is missing in the picture'
                continue
            gx, gy = [int(v) for v in lines[i - 1][0]], [float(v) for v in lines[i - 1][1]]
            if gx != xs or len(gy) != len(ys) or not all(eq(p, q) or abs(p - q) < 1e-9 for p, q in zip(gy, ys)):
                yield 'plot', f'optimizer {i} is drawn as {gx} {gy}, it was {xs} {ys}'


# ---- P34 --------------------------------------------------------------------------------------------------------------
def w34(name, **kw):
    kw.setdefault('spawn', ('n', 3))
    kw.setdefault('opts', [dict(script=[E] * 2), dict(script=[E] * 3)])
    sc(name, expect_crash=True, allow_survivors=1, **kw)


INT = dict(faults=('interrupt', 'intmain'), fault_filter='intr')
INTT = dict(faults=('intmain',), fault_filter='intr')
BOOM = ('selector', 'generator', 'checker', 'checker-str', 'hunter', 'hunter-str', 'init', 'headers')
for _b, _i in ((P, INT), (T, INTT)):
    w34('iplain', be=_b, **_i)
    w34('ihunt', be=_b, opts=[dict(script=[E] * 3)], vals=V, hunter='RecHunter([(1,2),(3,1)])', **_i)
    w34('ilong', be=_b, opts=[dict(script=[E, ('z', 1.3), E]), dict(script=[('z', 30), E])], spawn=('n', 2), **_i)
    w34('iconv', be=_b, opts=[dict(script=[E, ('z', 0.3)] * 8)], spawn=None, conv='MaxFuncCalls(3)', **_i)
    w34('icrash', be=_b, opts=[dict(script=[E, ('x',)]), dict(script=[E, ('m', 'a'), E])], spawn=('n', 2), **_i)
    w34('ifast', be=_b, opts=[dict(script=[E] * 14)], spawn=('n', 1), max_jobs=1, **_i)
    w34('ishare', be=_b, vals={1: [5, 3], 2: [4, 2, 1]}, spawn=('n', 2), share=True, **_i)
    w34('ichk', be=_b, opts=[dict(script=[E, ('z', 1.3), E, E])], spawn=('n', 2), chk=dict(checkpoint_iter_frequency=1),
        **_i)
    w34('ireport', be=_b, spawn=('n', 2), summary=3, report=True, **_i)
    w34('iquiet', be=_b, spawn=('n', 2), summary=1, report=True, watch=True, **_i)
    w34('isplit', be=_b, opts=[dict(script=[E, ('p', 'x'), E])], spawn=('n', 2), split=True, **_i)
w34('bplain', booms=BOOM)
w34('blong', booms=BOOM, opts=[dict(script=[E, ('z', 1.3), E, E]), dict(script=[('z', 30), E])], vals=V,
    hunter='RecHunter([(1,2),(3,1)])')
w34('bhunt', booms=BOOM, opts=[dict(script=[E] * 3)], vals=V, hunter='RecHunter([(1,2),(3,1)]) & MinFuncCalls(1)')
w34('bconv', booms=BOOM, opts=[dict(script=[E] * 4)], conv='MaxFuncCalls(3)')
w34('bdetail', booms=BOOM, opts=[dict(script=[ED] * 2 if False else [('e', 'd')] * 2)], task='DetailedTask',
    detailed=True, spawn=('n', 2), summary=3, report=True)
w34('breport', booms=BOOM, spawn=('n', 2), summary=1, report=True, watch=True)
BREP = BOOM + ('report',)
for _l in (0, 1, 2, 3):
    w34(f'brep{_l}', booms=BREP, spawn=('n', 2), summary=_l, report=True, watch=_l < 2)
w34('bspawn', booms=BOOM, spawn=('f', 3))
w34('bfast', booms=BOOM, opts=[dict(script=[E] * 14)], spawn=('n', 1), max_jobs=1)


def o_emerg(rec):
    s = rec.sessions[-1]
    w, log = rec.w, rec.w.log
    hits = [(n, e[0], e[1]) for n, e in enumerate(log) if e[0] in ('boom', 'fault') and e[1] != 'kill']
    hits = [h for h in hits if h[0] >= s.first]
    if s.result is None:
        if rec.exc is None and not w.problems:
            yield 'no-result', 'the run returned nothing'
        return
    if any(h[2] == 'report' for h in hits):
        if not any('boom in report' in t for t in rec.warnings):
            yield 'hidden', 'nobody was told that the summary could not be saved'
        hits = [h for h in hits if h[2] != 'report']
    pre = [h for h in hits if h[1] == 'boom' and h[2] == 'checker' and not any(e[0] in ('gen', 'opt_init') for e in log[:h[0]])]
    hits = [h for h in hits if h not in pre]
    ec = s.result.stats.get('end_cond')
    if not hits:
        if ec in ('GloMPO Crash', 'User Interrupt'):
            yield 'crash', f'the run ended with {ec!r} although nothing failed'
        return
    n, kind, what = hits[0]
    if kind == 'fault':
        if ec != 'User Interrupt':
            yield 'reason', f'the run was interrupted and reports {ec!r}'
    else:
        if ec != 'GloMPO Crash':
            yield 'reason', f'a plug-in ({what}) failed and the run reports {ec!r}'
        if not any('boom in ' + what in t for t in rec.warnings):
            yield 'hidden', f'nobody was told about the failure of the {what}'
    proc = rec.cfg.get('backend', 'processes').startswith('processes')
    if proc and s.survivors:
        yield 'survivors', f'still running after the end: {s.survivors}'
    later = [e for e in log[n + 1:s.last] if e[0] in ('opt_init',)]
    if later:
        yield 'started', f'optimizer {later[0][1]} was made after the failure'
    pipe = w.data.get('pipe', {})
    told = {}
    for c, m, li in w.data.get('sent', ()):
        if m == 1 or isinstance(m, tuple) and m and m[0] == 1:
            j = pipe.get(id(c.other))
            if j is not None:
                told.setdefault(j, li)
    dead = {e[1]: k for k, e in reversed(list(enumerate(log))) if e[0] == 'dead'}
    over = {e[1] for e in log if e[0] in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail')}
    ctrlc = kind == 'fault' and what == 'interrupt'
    started = {c.name for c in w.data.get('children', ()) if c._task is not None}
    for k, e in enumerate(log):
        if e[0] == 'terminate' and k > n and e[1].startswith('Opt') and int(e[1][3:]) not in told:
            yield 'not-told', f'{e[1]} was terminated without having been told to stop'
    for e in log[:s.last]:
        if e[0] != 'opt_init' or f'Opt{e[1]}' not in started:
            continue
        if e[1] not in told and e[1] not in over and not (proc and ctrlc) and dead.get(f'Opt{e[1]}', s.last) >= s.last:
            yield 'not-told', f'optimizer {e[1]} was running and was not told to stop'
    f = getattr(s.mgr.opt_log, 'pytab_file', None)
    if f is not None and f.isopen:
        yield 'log-open', 'the log file was left open'


def chk_units(names, quick, thorough):
    def make(tier):
        return [Unit(n, SC[n], quick if tier == 'quick' else thorough, core + [o_report, o.o_place], chk.resume_body) for n in names]
    return make


_r29 = units([(f'rep{k}{n}', *b) for k, b in
              (('', (S1, S2)), ('fmax', (S1, S2)), ('hunt', (S1, S2)), ('crash', (S1, S2)), ('none', (S0, S2)),
               ('odd', (S0, S1)), ('int', (F1, dict(f=1, s=1))), ('boom', (F1, dict(f=1, s=1)))) for n in range(4)]
             + [f'repdozen{n}' for n in (1, 2, 3)] + [f'repmove{p}{n}' for p in ('rel', 'str', 'relstr') for n in (1, 2, 3)] + ['replog', 'repneglog', 'repnolog', 'repneg', 'repmix', 'repbounds', 'repplain', 'repchk', 'repsplit',
                'repkeep'], [o_report, o.o_place], S0, S1)
_c29 = chk_units(['repres2-threads', 'repres3-threads', 'represconv2-threads', 'represconv3-threads'] +
                  [f'represmove{p}{n}-threads' for p in ('rel', 'str', 'relstr') for n in (2, 3)], S0, S1)
# ---- a summary is asked of a loaded checkpoint ------------------------------------------------------------------------------
def dump_body(rec):
    import os
    w = rec.w
    rec.bad = []
    chk.first_session(rec)
    rec.cur = None
    arch = chk.archives(rec)
    a = arch[w.choose_value(len(arch), 'archive') if len(arch) > 1 else 0]
    where = (None, rec.root / 'dump', str(rec.root / 'dump'), rec.root)[w.choose_value(4, 'where')]
    m, got = chk.load(rec, a)
    files = lambda: {str(p): p.stat().st_mtime for p in rec.root.rglob('*') if p.is_file()}  # noqa
    before, state = files(), chk.attrs(m)
    m.write_summary_file(where) if where is not None else m.write_summary_file()
    target = os.path.join(str(where or m.working_dir), 'glompo_manager_log.yml')
    now = files()
    new = sorted(k for k in now if now[k] != before.get(k))
    if new != [target] or set(before) - set(now):
        rec.bad.append(('files', f'asked for {where}: written {new}, removed {sorted(set(before) - set(now))}'))
        return
    if chk.attrs(m) != state:
        rec.bad.append(('touched', f'writing the summary changed the manager: {state} -> {chk.attrs(m)}'))
    with open(target) as f:
        d = yaml.load(f, Loader=yaml.FullLoader)
    try:
        c, sol = d['Counters'], d['Solution']
        rows = {'Function Evaluations': (c['Function Evaluations'], m.f_counter), 'Hunts': (c['Hunts Started'], m.hunt_counter),
                'Started': (c['Optimizers']['Started'], m.o_counter),
                'Killed': (c['Optimizers']['Killed'], len(m.hunt_victims)),
                'Converged': (c['Optimizers']['Converged'], m.conv_counter), 'fx': (sol['fx'], m.result.fx),
                'x': (sol['x'] or None, list(m.result.x) if m.result.x else None), 'origin': (sol['origin'], m.result.origin),
                'Max Jobs': (d['Settings']['Max Jobs'], m.max_jobs)}
        for k, (g, e) in rows.items():
            if not eq(g, e):
                rec.bad.append(('number', f'{k}: reported {g!r}, stored is {e!r}'))
        if any(t in str(sol['exit cond.']) for t in ('Crash', 'Interrupt', 'converge')):
            rec.bad.append(('exit', f"the state of a checkpoint is reported to have ended by {sol['exit cond.']!r}"))
    except (KeyError, TypeError, AttributeError, IndexError) as e:
        rec.bad.append(('summary-shape', f'{e!r} while reading the summary {d}'))


def o_dump(rec):
    yield from rec.bad


for _b in (P, T):
    sc('dump', be=_b, opts=[dict(script=ez(3)), dict(script=ez(2))], spawn=('n', 3), vals=V, hunter='RecHunter([(1,2)])',
       chk=dict(checkpoint_at_init=True, checkpoint_iter_frequency=1, checkpoint_at_conv=True, naming_format='c_%(count)'))


def _d29(tier):
    return [Unit(k, SC[k], dict(s=0 if tier == 'quick' else 1), core + [o_dump], dump_body)
            for k in ('dump-processes', 'dump-threads')]


FS = dict(f=1, s=1)
PROPS = {
    'P29': dict(units=lambda tier: _r29(tier) + _c29(tier) + _d29(tier) + plots.units29(tier)),
    'P34': dict(units=units(['iplain', 'ihunt', 'ilong', 'iconv', 'icrash', 'ifast', 'ishare', 'ichk', 'ireport', 'iquiet',
                             'isplit', 'bplain', 'blong', 'bhunt', 'bconv', 'bdetail', 'breport', 'brep0', 'brep1', 'brep2', 'brep3', 'bspawn', 'bfast'],
                            [o_emerg, o.o_result, o.o_life, o.o_conv], F1, FS)),
}
