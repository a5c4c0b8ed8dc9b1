"""Checkpoints are taken when they were asked for (P40)."""
from . import chk
from .p_run import S1, S2, SC, E, P, T, core, sc
from .p_chk import cc, ez
from .scen import Unit

INF = float('inf')
EPS = 1e-2


def w40(name, chk_, **kw):
    kw.setdefault('opts', [dict(script=ez(4, 0)), dict(script=ez(3, 1.2))])
    kw.setdefault('spawn', ('n', 2))
    kw.setdefault('resumes', 1 if 'which' in kw or 'resume' in kw else 0)
    sc(name, chk=cc(**chk_), **kw)


ITER, TIME = 'checkpoint_iter_frequency', 'checkpoint_time_frequency'
w40('qnone', {})
for _n in (0, 1, 2, 3):
    w40(f'qiter{_n}', {ITER: _n})
for _n, _t in enumerate((0.7, 1.3, 3.1)):
    w40(f'qtime{_n}', {TIME: _t})
w40('qboth', {ITER: 2, TIME: 3.1})
w40('qboth2', {ITER: 1, TIME: 1.3})
w40('qinit', dict(checkpoint_at_init=True))
w40('qconv', dict(checkpoint_at_conv=True), conv='MaxFuncCalls(4)')
w40('qall', {ITER: 2, TIME: 3.1, 'checkpoint_at_init': True, 'checkpoint_at_conv': True})
w40('qsleep', {TIME: 3.1}, opts=[dict(script=[E, ('z', 11.3), E]), dict(script=[('z', 5.2), E, E])])
w40('qfast', {ITER: 3}, opts=[dict(script=[E] * 9)])
w40('qrefill', {ITER: 1}, opts=[dict(script=[E, ('z', 1.7)]), dict(script=[('z', 0.4), E])], spawn=('n', 4))
w40('qbad', {ITER: 1, TIME: 6.2}, task='BadTask')
w40('qbadall', {TIME: 2.3, 'checkpoint_at_init': True, 'checkpoint_at_conv': True}, task='BadTask')
w40('qspoil', {ITER: 1, TIME: 6.2}, spoil=True)
w40('qspoilt', {TIME: 2.3, 'checkpoint_at_conv': True}, spoil=True)
w40('qres', {ITER: 2}, which=[['chk_000.tar.gz'], ['chk_001.tar.gz']], resumes=2)
w40('qrestime', {TIME: 3.1}, which=[['chk_000.tar.gz']])
w40('qresboth', {ITER: 2, TIME: 4.3, 'checkpoint_at_init': True}, resumes=1)
w40('qresconv', {ITER: 2, 'checkpoint_at_conv': True}, conv='MaxFuncCalls(4)', resume=dict(conv='MaxFuncCalls(50)'))


def o_freq(rec):
    ctl = rec.cfg['chk']
    tf, nf = ctl.get(TIME, INF), ctl.get(ITER, INF)
    last_f = {}     # what the manager knew when checkpoint n began
    for k, s in enumerate(rec.sessions):
        if s.result is None:
            return
        mine = [d for d in rec.chkpts if d['session'] == k + 1 and s.first <= d['li0'] <= s.last]
        lf = 0
        if k:
            src = [d for d in rec.chkpts if s.archive in d.get('new', ()) and d['li1'] <= s.first]
            if not src:
                return
            lf = last_f[src[-1]['n']]
        lt = s.mgr.t_start
        passes = s.checks
        if not passes or lt is None:
            return
        pre = [d for d in mine if d['li0'] < passes[0]['li']]
        want = 1 if ctl.get('checkpoint_at_init') and not k else 0
        for d in pre:
            last_f[d['n']] = lf
        if len(pre) != want:
            yield 'init', f'{len(pre)} checkpoints before the start of session {k + 1}, expected {want}'
            return
        for n, p in enumerate(passes):
            end = passes[n + 1]['li'] if n + 1 < len(passes) else None
            got = [d for d in mine if d['li0'] >= p['li'] and (end is None or d['li0'] < end)]
            t = p['t']
            if abs(t - lt - tf) < EPS:
                return
            by_t, by_f = t - lt > tf, p['f'] - lf > nf
            due = int(by_t or by_f)
            more = 0
            if end is None and ctl.get('checkpoint_at_conv'):
                more = 1
            for d in got[:due]:
                if by_t:
                    lt = d['t0']
                else:
                    lf = d['f0']
            for d in got:
                last_f[d['n']] = lf
            if len(got) != due + more:
                yield 'when', f'session {k + 1}, pass {n}: {len(got)} checkpoints made, {due} due' \
                    f'{" and one at the end" if more else ""} (last at {lt - s.mgr.t_start:.2f} s and {lf} evaluations, ' \
                    f'now {t - s.mgr.t_start:.2f} s and {p["f"]})'
                return


NAMES = ['qnone', 'qiter0', 'qiter1', 'qiter2', 'qiter3', 'qtime0', 'qtime1', 'qtime2', 'qboth', 'qboth2', 'qinit', 'qconv',
         'qall', 'qsleep', 'qfast', 'qrefill', 'qbad', 'qbadall', 'qspoil', 'qspoilt', 'qres', 'qrestime', 'qresboth', 'qresconv']

ONE = ('qboth', 'qiter1', 'qiter2', 'qtime0', 'qtime1', 'qconv', 'qsleep', 'qspoil', 'qres')


def _units(tier):
    q = tier == 'quick'
    out = []
    for n, name in enumerate(NAMES):
        for b in ((P, T) if not q or name in ('qall', 'qboth') else ((P, T)[n % 2],)):
            k = f'{name}-{b[0]}'
            bud = dict(s=1) if not q else dict(s=1 if name in ONE else 0)
            out.append(Unit(k, SC[k], bud, core + [o_freq], chk.resume_body))
    return out


PROPS = {
    'P40': dict(units=_units),
}
