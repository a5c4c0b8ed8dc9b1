"""Log files: resumed runs."""
from . import chk as c
from . import oracles as o
from .p_run import P, T, SC, sc, V, SV, S1, S2, S3, core
from .p_chk import cc, ez, A3, B2, B3, I1, I2, F1, F1S1, units
from .scen import E, Unit


def I(n):
    return cc(checkpoint_iter_frequency=n)


# log files
sc('h1', opts=[A3, B2], spawn=('n', 2), chk=I2, summary=3)
sc('hinit', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=cc(checkpoint_at_init=True), summary=3)
sc('hspawn', opts=[dict(script=ez(2, 0)), B3], spawn=('n', 4), chk=I(3), summary=3)
sc('hlate', opts=[dict(script=ez(3, 0)), dict(script=[('z', 4), E, E])], spawn=('n', 3), chk=I1, summary=3)
sc('hfew', opts=[dict(script=ez(3, 0)), dict(script=ez(2, 0), init=dict(silent_end=True))], spawn=('n', 5), max_jobs=3, chk=I2, summary=3)
sc('hidle', opts=[dict(script=[('z', 3)] * 3), B2], spawn=('n', 4), chk=I1, summary=3)
sc('hmsg', opts=[dict(script=[E, ('m', 'one'), ('z', 2.5), E]), B2], spawn=('n', 2), chk=I1, summary=3)
sc('hmsg2', opts=[dict(script=[E, ('m', 'one'), ('z', 2.5), ('m', 'two'), E, ('z', 2), E, ('m', 'three')]), B3], spawn=('n', 2),
   chk=I1, resumes=2, summary=3)
sc('hkill', opts=[dict(script=ez(4, 0))], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2)])', chk=I(3), summary=3)
sc('hminf', opts=[dict(script=ez(3, 0)), dict(script=[('z', 4)] + ez(3, 0))], vals=V, spawn=('n', 3),
   hunter='MinFuncCalls(2)', chk=I1, summary=3)
sc('hconv', opts=[dict(script=ez(4, 0)), dict(script=ez(3, 1.2))], spawn=('n', 2), conv='MaxFuncCalls(3)',
   chk=cc(checkpoint_at_conv=True), resume=dict(conv='MaxFuncCalls(50)'), summary=3)
sc('htwice', opts=[dict(script=ez(4, 0)), B3], spawn=('n', 2), chk=I(2), resumes=2, summary=3)
# names of a dozen optimizers do not sort like their numbers
sc('hmany', opts=[dict(script=[E, ('z', 1.2), E])], spawn=('n', 12), max_jobs=3, chk=I(7), summary=3)
sc('hdozen', opts=[dict(script=[E, ('z', 1.2), E])], spawn=('n', 12), max_jobs=12, chk=I(11), summary=3)
for n in ('crash', 'last_crash', 'gone'):
    sc('h' + n, opts=[A3, B2], spawn=('n', 3), chk=I2, summary=3, prepare=n)
    sc('hlate_' + n, opts=[dict(script=ez(3, 0)), dict(script=[('z', 4), E, E])], spawn=('n', 3), chk=I1, summary=3,
       prepare=n)
    sc('htwice_' + n, opts=[dict(script=ez(4, 0)), B3], spawn=('n', 2), chk=I(2), resumes=2, summary=3, prepare=n)


def o_file(rec):
    """ P20: the file. """
    for s in getattr(rec, 'refusals', ()):
        if s.refusal is None:
            yield 'not-refused', f'a log file which is not that of {s.archive} was accepted'
        elif not s.untouched:
            yield 'touched', f'the log file refused when resuming {s.archive} was changed'
    for n, s in enumerate(rec.sessions):
        m = s.mgr
        if s.result is None:
            continue
        if not s.checks:
            continue
        if hasattr(s, 'file_error') or not hasattr(s, 'file_attrs'):
            yield 'unreadable', f'session {n}: the log file cannot be read: {getattr(s, "file_error", "")}'
            continue
        at = s.file_attrs
        fresh = s.base is not None and rec.cfg.get('prepare') == 'gone'
        first_o = 1
        ids = sorted(s.meta)
        want = list(range(1, m.o_counter + 1))
        if fresh:
            want = [i for i in want if i > s.base['o'] or i in s.base['loaded']]
        if ids != want and not (fresh and set(want) <= set(ids) <= set(range(1, m.o_counter + 1))):
            yield 'groups', f'session {n}: the file has optimizers {ids}, expected {want}'
        for k, v in (('f_counter', m.f_counter), ('opts_started', m.o_counter), ('n_evals', m.f_counter),
                     ('n_opts_started', m.o_counter), ('n_opts_killed', len(m.hunt_victims)),
                     ('n_opts_conv', m.conv_counter), ('checksum', getattr(m, '_checksum', at.get('checksum')))):
            if at.get(k) != v:
                yield 'attrs', f'session {n}: {k} in the file is {at.get(k)!r}, it is {v!r}'
        if fresh:
            rows = [r[0] for r in s.L]
            if rows != list(range(s.base['f'] + 1, m.f_counter + 1)):
                yield 'rows', f'session {n}: a new file holds evaluations {rows} after {s.base["f"]}'
        for i in ids:
            # every script sends its messages in order, so each belongs in the file exactly once
            spec = [sp['script'] for sp in rec.cfg['opts']]
            can = [[a[1] for a in sc_ if a[0] == 'm'] for sc_ in spec]
            got = [t for t in s.msgs[i] if any(t in q for q in can)]
            if not fresh and not any(got == q[:len(got)] for q in can):
                yield 'messages', f'session {n}: messages of {i} in the file are {s.msgs[i]}'
            end = s.meta[i].get('end_cond')
            if end is None:
                yield 'no-end', f'session {n}: the file has no end of optimizer {i}'


S0 = dict(s=0)
Q = (S0, S1)
RES = [('h1', *Q), 'hinit', ('hspawn', *Q), ('hlate', *Q), 'hfew', 'hidle', 'hmsg', 'hmsg2', ('hkill', *Q), ('hminf', *Q), 'hconv', 'htwice', 'hreseed', ('hcrash', *Q), ('hlate_crash', *Q), 'htwice_crash',
       'hlast_crash', 'hlate_last_crash', 'htwice_last_crash', 'hforeign', 'hforeigninit', 'hforeignidle', 'hcrashinit', 'hmany', 'hdozen']
sc('hreseed', opts=[dict(script=ez(4, 0)), B3], spawn=('n', 2), chk=I(2), resumes=2, summary=3, reseed=True)
sc('hforeign', opts=[A3, B2], spawn=('n', 2), chk=I2, summary=3, prepare='foreign')
sc('hforeigninit', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=cc(checkpoint_at_init=True), summary=3, prepare='foreign')
sc('hforeignidle', opts=[dict(script=[('z', 3)] * 3)], spawn=('n', 2), chk=cc(checkpoint_at_init=True, checkpoint_time_frequency=2), summary=3, prepare='foreign')
sc('hcrashinit', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=cc(checkpoint_at_init=True, checkpoint_iter_frequency=1), summary=3, prepare='last_crash')
GONE = ['hgone', 'hlate_gone', 'htwice_gone']

PROPS = {
    'P20': dict(units=lambda tier: (
        units(RES, core + [o.o_result, c.o_resumed, o_file], c.resume_body, S0, S0, both=())(tier) +
        units(GONE, core + [o_file], c.resume_body, S0, S1, both=())(tier))),
}
