"""Requests of the user through files (P27)."""
import re

from . import oracles as o
from .p_run import S1, S2, S3, SC, V, E, NAN, INF, P, T, sc, units
from .scen import Unit

F1 = dict(f=1)
FS = dict(f=1, s=1)


def w27(name, *files, **kw):
    kw.setdefault('fault_filter', 'user')
    kw.setdefault('spawn', ('n', 3))
    kw.setdefault('opts', [dict(script=[E] * 2), dict(script=[E] * 3)])
    sc(name, faults=tuple('user:' + f for f in files), **kw)


LONG = [dict(script=[E, ('z', 1.3)] * 2 + [E]), dict(script=[('z', 1.7), E] * 3)]
w27('stop', 'STOP_1', 'STOP_2', 'STOP_3')
w27('stoplong', 'STOP_1', 'STOP_2', 'STOP_3', opts=LONG)
w27('stoptwo', 'STOP_x', 'STOP_1', 'STOP_2', 'STOP_', opts=LONG, spawn=('n', 2))
w27('stopmany', 'STOP_10', 'STOP_11', opts=[LONG[0]], max_jobs=11, spawn=('n', 11))
w27('stopall', 'STOP_1', 'STOP_2', 'STOP_3', fault_filter='userany')
w27('stopbad', 'STOP_x', 'STOP_', 'STOP_1_2', 'STOP_99', 'STOP_-1', 'STOP_002', 'STOP_2')
w27('stopodd', 'STOP_0_1', 'STOP_1.0', 'xSTOP_1', 'STOP_1.tmp', 'stop_1', 'STOP_0x1')
w27('stopthere', 'STOP_2', files={'STOP_1': '', 'STOP_x': '', 'STOP_7': '', 'STOP_0': ''})
w27('stophunt', 'STOP_1', 'STOP_2', opts=[dict(script=[E] * 3)], vals=V, hunter='RecHunter([(1,2),(3,1)])')
w27('stopaggr', 'STOP_1', 'STOP_2', aggressive=True)
w27('stopcrash', 'STOP_1', 'STOP_2', opts=[dict(script=[E, ('x',)]), dict(script=[E, ('q',)])])
w27('stopfmax', 'STOP_1', 'STOP_2', conv='MaxFuncCalls(4)')
w27('stopdeaf', 'STOP_1', opts=[dict(script=[E] * 6, init=dict(deaf=True)), dict(script=[E] * 2)])
w27('stoplean', 'STOP_1', 'STOP_2', summary=0)
w27('chk', 'CHKPT', opts=[dict(script=[E] * 2)], spawn=('n', 2))
w27('chktwo', 'CHKPT', opts=LONG, spawn=('n', 2))
w27('chkall', 'CHKPT', opts=[dict(script=[E] * 2)], spawn=('n', 2), fault_filter='userany')
w27('chkconf', 'CHKPT', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=dict())
w27('chkmix', 'CHKPT', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=dict(checkpoint_iter_frequency=2, naming_format='c_%(count)'))
w27('chkstop', 'CHKPT', 'STOP_1', 'STOP_2', opts=[dict(script=[E] * 2)], spawn=('n', 2))
w27('chkthere', 'CHKPT', opts=[dict(script=[E] * 2)], spawn=('n', 2), files={'CHKPT': 'please'})
C = ('c',)
MOVE = dict(be=T, opts=[dict(script=[E, C, ('z', 1.3), E]), dict(script=[('z', 1.7), E] * 3)], spawn=('n', 2))
for _p in ('rel', 'str', 'relstr'):
    w27('stop' + _p, 'STOP_1', 'STOP_2', paths=_p, **MOVE)
    w27('chk' + _p, 'CHKPT', paths=_p, **MOVE)
w27('chkconfrel', 'CHKPT', paths='relstr', chk=dict(), **MOVE)

UREASON = 'User STOP file intervention'


def o_user(rec):
    s = rec.sessions[0]
    if s.result is None:
        return
    cfg, log, m = rec.cfg, rec.w.log, s.mgr
    here = {f: 0 for f in cfg.get('files', {})}
    made = [(n, e[1]) for n, e in enumerate(log) if e[0] == 'user'] + [(-1, f) for f in here]
    checks = s.checks
    init = {e[1]: n for n, e in enumerate(log) if e[0] == 'opt_init'}
    over = {}
    for n, e in enumerate(log):
        if e[0] in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail') and e[1] not in over:
            over[e[1]] = n
    kill = {h['victim']: h['li'] for h in reversed(s.hunts) if h['r']}
    final = tuple(sorted(p.name for p in rec.wd.iterdir()))

    def stop_id(f):
        q = re.fullmatch(r'STOP_(-?\d+)', f)
        return int(q.group(1)) if q else None

    asked, gone = {}, {}
    for n, f in made:
        later = [c for c in checks if c['li'] > n]
        g = next((k for k, c in enumerate(later) if f not in c['files']), None)
        i = stop_id(f)
        if g is None and f in final:
            if f == 'CHKPT':
                if len(later) > 1:
                    yield 'chkpt-ignored', f'a checkpoint request was still unanswered {len(later)} passes later'
            elif i in init:
                # alive during one whole pass in which the file was there
                for a, b in zip(later, later[1:]):
                    if init[i] < a['li'] and over.get(i, len(log)) > b['li'] and kill.get(i, len(log)) > b['li'] and \
                            i not in [stop_id(q) for k, q in made if k < n]:
                        yield 'stop-ignored', f'{f} was there and optimizer {i} running for a whole pass; nothing happened'
                        break
            continue
        # the file was consumed
        gone.setdefault(f, []).append((n, later[g]['li'] if g is not None else len(log)))
        if f == 'CHKPT':
            continue
        if i is None or i not in init:
            yield 'stop-consumed', f'{f} names no optimizer but was removed'
            continue
        asked[i] = (n, later[g]['li'] if g is not None else len(log))
        if over.get(i, len(log)) < n and not later[:1] or \
                over.get(i, len(log)) < n and any(c['li'] < n and i not in c['alive'] for c in checks[:-1]):
            before = [c for c in checks if c['li'] < n and i not in c['alive'] and over[i] < c['li']]
            if len(before) > 1:
                yield 'stop-dead', f'{f} was consumed although optimizer {i} had ended long before'
    # effects
    for i in asked:
        if i not in m.hunt_victims:
            yield 'stop-no-effect', f'STOP_{i} was consumed but optimizer {i} was not stopped'
        if s.hist_available:
            ec = s.meta[i].get('end_cond') or ''
            if UREASON not in ec:
                yield 'stop-record', f'optimizer {i} was stopped by the user; recorded is {ec!r}'
    if s.hist_available:
        for i, md in s.meta.items():
            if UREASON in (md.get('end_cond') or '') and i not in asked:
                yield 'stop-other', f'optimizer {i} is recorded as stopped by the user, who asked for {sorted(asked)}'
    for i in m.hunt_victims:
        if i not in asked and i not in kill:
            yield 'stop-other', f'optimizer {i} was stopped; the user asked for {sorted(asked)}, hunted were {sorted(kill)}'
    end = checks[-1]['li'] if checks else 0
    for n, e in enumerate(log):
        if e[0] == 'callstop' and n < end and not (e[1] in asked and asked[e[1]][0] < n or kill.get(e[1], n + 1) <= n):
            yield 'stop-other', f'optimizer {e[1]} was told to stop although nobody asked for it'
    if len(checks) > 1 and not cfg.get('aggressive'):
        for i, (n, at) in asked.items():
            deaf = next((sp.get('init', {}).get('deaf') for sp in [o.spec_of(rec, i)] if sp), False)
            told = [k for k, e in enumerate(log) if e[0] == 'callstop' and e[1] == i]
            # it goes on evaluating long after being told
            ev = [k for k, e in enumerate(log) if e[0] == 'eval' and e[1] == i and k > at]
            if not deaf and len(ev) > 2:
                yield 'stop-late', f'optimizer {i} made {len(ev)} more evaluations after its stop was consumed'
    # checkpoints
    want = len(gone.get('CHKPT', ()))
    d = rec.wd / 'checkpoints' if cfg.get('chk') is None else rec.chk_dir
    have = sorted(p.name for p in d.iterdir()) if d.exists() else []
    auto = 0
    if cfg.get('chk', {}).get('checkpoint_iter_frequency'):
        last = 0
        q = cfg['chk']['checkpoint_iter_frequency']
        for c in checks:
            if c['f'] - last > q:
                last = c['f']
                auto += 1
    if len(have) != want + auto:
        yield 'chkpt-count', f'{want} checkpoints were requested, {auto} were due, {len(have)} were made: {have}'
    if any(not p.endswith('.tar.gz') for p in have):
        yield 'chkpt-rest', f'left beside the checkpoints: {have}'
    rest = [p for p in final if p.startswith('STOP_') or p == 'CHKPT']
    known = {f for _, f in made}
    if set(rest) - known:
        yield 'files', f'files nobody made: {rest}'
    for f in ('STOP_x', 'STOP_', 'STOP_1_2'):
        if f in known and f not in final:
            yield 'stop-consumed', f'{f} was removed'
    if cfg.get('chk') is None and m.checkpoint_control is not None:
        yield 'chkpt-config', 'a checkpoint request switched checkpointing on'


base = [o_user, o.o_result, o.o_account, o.o_life]

PROPS = {
    'P27': dict(units=lambda tier: units([
        ('stop', FS, dict(f=2, s=1)), ('stoplong', FS, dict(f=2, s=1)), ('stoptwo', dict(f=2), dict(f=3, s=1)),
        ('stopmany', F1, FS), ('stopall', F1, FS), ('stopbad', F1, FS), ('stopodd', F1, FS), ('stopthere', FS, dict(f=1, s=2)),
        ('stophunt', FS, dict(f=2, s=1)), ('stopaggr', FS, dict(f=2, s=1)), ('stopcrash', FS, dict(f=2, s=1)),
        ('stopfmax', FS, dict(f=1, s=2)), ('stopdeaf', F1, FS), ('stoplean', F1, FS), ('chk', FS, dict(f=2, s=1)),
        ('chktwo', dict(f=2), dict(f=2, s=1)), ('chkall', F1, FS), ('chkconf', F1, FS), ('chkmix', F1, dict(f=2, s=1)), ('chkstop', dict(f=2), dict(f=2, s=1)),
        ('chkthere', F1, FS)], base, FS, FS)(tier) + units(
            [(a + b, F1, FS) for a in ('stop', 'chk') for b in ('rel', 'str', 'relstr')] + [('chkconfrel', F1, FS)],
            base + [o.o_place], FS, FS)(tier)),
}
