"""Checkpoints: consistent cut, no disturbance, resumption, atomicity."""
from . import chk as c
from . import oracles as o
from .p_run import P, T, SC, sc, V, SV, S1, S2, S3, core
from .scen import E, Unit

NAN, INF = float('nan'), float('inf')


def cc(**k):
    k.setdefault('naming_format', 'chk_%(count)')
    return k


I1, I2 = cc(checkpoint_iter_frequency=1), cc(checkpoint_iter_frequency=2)


def ez(n, dt, *more):
    """ n evaluations with pauses of 2.5 s (the manager waits 1 s for further results), starting after dt. """
    return ([('z', dt)] if dt else []) + [E, ('z', 2.5)] * (n - 1) + [E] + list(more)


A3, B2, B3 = dict(script=ez(3, 0)), dict(script=ez(2, 1.2)), dict(script=ez(3, 1.2))
# checkpoints while optimizers run
sc('c1', opts=[A3, B2], spawn=('n', 2), chk=I2)
sc('cburst', opts=[dict(script=[E] * 3), dict(script=[E] * 2)], spawn=('n', 2), chk=I2)
sc('cinit', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=cc(checkpoint_at_init=True))
sc('cconv', opts=[dict(script=ez(4, 0)), dict(script=ez(3, 1.2))], spawn=('n', 2), conv='MaxFuncCalls(3)',
   chk=cc(checkpoint_at_conv=True))
sc('cend', opts=[B2], spawn=('n', 2), chk=cc(checkpoint_at_conv=True))
sc('ctime', opts=[dict(script=[E, ('z', 1.5)] * 2), dict(script=[E] * 2)], spawn=('n', 2),
   chk=cc(checkpoint_time_frequency=1))
sc('cuser', opts=[dict(script=ez(2, 0)), dict(script=ez(2, 1.2))], spawn=('n', 2), chk=cc(), faults=('user:CHKPT',),
   fault_filter='user')
# optimizers which end, speak, crash, exit, are killed around it
sc('cspawn', opts=[dict(script=[E]), A3], spawn=('n', 3), chk=I2)
sc('cshort', opts=[dict(script=[E])], spawn=('n', 3), chk=cc(checkpoint_iter_frequency=0))
sc('cmsg', opts=[dict(script=[E, ('m', 'one'), ('z', 2.5), ('m', 'two'), E]), B2], spawn=('n', 2), chk=I1)
sc('ccrash', opts=[dict(script=ez(2, 0, ('x',))), A3], spawn=('n', 2), chk=I2)
sc('cquit', opts=[dict(script=ez(2, 0, ('q',))), dict(script=ez(2, 1.2), init=dict(silent_end=True))],
   spawn=('n', 2), chk=I1)
sc('ckill', opts=[dict(script=ez(4, 0))], vals=V, spawn=('n', 2), hunter='RecHunter([(1,2)])', chk=I2)
sc('ckill2', opts=[dict(script=ez(3, 0)), dict(script=ez(4, 1.2))], vals=V, spawn=('n', 3),
   hunter='RecHunter([(1,2), (3,1)])', hunt_frequency=3, chk=I2)
sc('cdie', be=P, opts=[dict(script=ez(2, 0)), A3], spawn=('n', 2), faults=('kill',), chk=I2)
sc('cdieeof', be=P, opts=[dict(script=ez(2, 0)), A3], spawn=('n', 2), faults=('kill',), eof=True, chk=I2)
sc('cdielate', be=P, opts=[dict(script=[E, ('b', 2.53), ('b', 1.26)]), dict(script=[('b', 1.2), ('b', 1.63)])], spawn=('n', 2), faults=('kill',),
   eof=True, chk=I1)
sc('ceof', be=P, opts=[dict(script=ez(2, 0)), dict(script=ez(3, 1.2))], spawn=('n', 3), eof=True, chk=I2)
sc('cshare', opts=[A3], vals=SV, spawn=('n', 2), share=True, chk=I2)
# evaluations which take a while: results are on their way when the optimizers are told to pause
W3, W4 = dict(script=[E] + [('b', 2.5)] * 2), dict(script=[('b', 1.2)] + [('b', 2.5)] * 2)
sc('cbusy', opts=[A3, W4], spawn=('n', 2), chk=I2)
sc('cbusyshare', opts=[A3, W4], vals={1: [5, 3, 3], 2: [4, 2, 2]}, spawn=('n', 2), share=True, chk=I2)
sc('cbusykill', opts=[W3, W4], vals={1: [5, 6, 6, 6], 2: [9, 1, 1, 1]}, spawn=('n', 2),
   hunter='RecHunter([(2,1)])', chk=I2)
sc('cbusyend', opts=[A3, dict(script=[('b', 1.2), ('b', 2.5)])], spawn=('n', 3), chk=I2)
sc('cbatch', opts=[A3, dict(script=[('z', 1.2), ('B', 2), ('z', 2.5), ('B', 3)])], spawn=('n', 2), chk=I2)
# more evaluations between two looks than the queue can hold; optimizers which live on after their end
sc('cflood', opts=[dict(script=[('B', 300), E])], spawn=('n', 1), max_jobs=1, chk=cc(checkpoint_iter_frequency=60))
sc('cflood2', opts=[dict(script=[('B', 200), E]), dict(script=[E, ('B', 170)])], spawn=('n', 2),
   chk=cc(checkpoint_iter_frequency=40))
sc('clinger', opts=[dict(script=ez(2, 0), init=dict(linger=(4, 2))), A3], spawn=('n', 3), chk=I2)
sc('clingerone', opts=[dict(script=ez(2, 0), init=dict(linger=(6, 1)))], spawn=('n', 2), max_jobs=1, chk=I1)
sc('clingereof', be=P, opts=[dict(script=ez(2, 0), init=dict(linger=(1.2, 0))), dict(script=ez(3, 1.1), init=dict(linger=(2.7, 0)))],
   spawn=('n', 3), eof=True, chk=I1)
sc('rlinger', opts=[dict(script=ez(2, 0), init=dict(linger=(4, 2))), A3], spawn=('n', 3), chk=I2)
sc('cloud', opts=[A3, dict(script=ez(3, 1.2, ('m', 'x')))], spawn=('n', 3), chk=I2, debug=True, status=0)
sc('rloud', opts=[A3, B3], spawn=('n', 3), chk=cc(checkpoint_iter_frequency=3), debug=True, status=0)
sc('cfast', opts=[dict(script=[E] * 12)], spawn=('n', 1), max_jobs=1, chk=cc(checkpoint_iter_frequency=4))
sc('cfast2', opts=[dict(script=[E] * 7)], spawn=('n', 2), chk=cc(checkpoint_iter_frequency=5))
sc('cdozen', opts=[A3, dict(script=ez(2, 0))], spawn=('n', 12), max_jobs=12, chk=cc(checkpoint_iter_frequency=9))
sc('rdozen', opts=[A3, dict(script=ez(2, 0))], spawn=('n', 12), max_jobs=12, chk=cc(checkpoint_iter_frequency=9))
sc('rmany', opts=[A3, dict(script=ez(2, 0))], spawn=('n', 13), max_jobs=3, chk=cc(checkpoint_iter_frequency=7))
sc('clean', opts=[dict(script=ez(2, 0)), dict(script=ez(3, 1.2))], spawn=('n', 3), summary=0, chk=I2)
sc('cthree', opts=[dict(script=ez(2, 0))], spawn=('n', 3), max_jobs=3, chk=I2)
sc('cforced', be=('processes_forced',), opts=[A3], spawn=('n', 2), chk=I2)
sc('codd', opts=[A3], spawn=('n', 2), vals={1: [NAN, INF, 4.0], 2: [INF, NAN, NAN]}, chk=I2)
sc('cnothing', opts=[dict(script=ez(2, 0))], spawn=('n', 2), vals={0: [INF]}, chk=I1)
sc('cworkers', opts=[dict(script=ez(3, 0), workers=2), B2], spawn=('n', 3), max_jobs=3, chk=I2)
sc('ctypes', opts=[A3, dict(script=ez(2, 1.2), cls='OtherOpt')], spawn=('n', 3), chk=I2)
sc('csleep', opts=[dict(script=[E, ('z', 3), E]), dict(script=[E] * 3)], spawn=('n', 2), chk=I2)
sc('cidle', opts=[dict(script=[('z', 0.3)] * 6), B2], spawn=('n', 2), chk=I1)
# failures
sc('f1', opts=[A3, B2], spawn=('n', 2), chk=I2, expect_crash=True)
for be_ in (P, T):  # a crash waits 0.1 s for threads, which cannot be terminated
    sc('fraise', be=be_, opts=[A3, B2], spawn=('n', 2), expect_crash=True, allow_survivors=be_ == T,
       chk=cc(checkpoint_iter_frequency=2, raise_checkpoint_fail=True))
sc('fend', opts=[B2, dict(script=[E, ('m', 'hm'), ('z', 2.5), E])], spawn=('n', 3), chk=I2, expect_crash=True)
sc('fconv', opts=[dict(script=ez(6, 0))], spawn=('n', 2), conv='MaxFuncCalls(3)',
   chk=cc(checkpoint_at_conv=True), expect_crash=True)
sc('fprune', opts=[dict(script=ez(6, 0))], spawn=('n', 1), max_jobs=1,
   chk=cc(checkpoint_iter_frequency=1, keep_past=1), expect_crash=True)
sc('fprune0', opts=[dict(script=ez(5, 0))], spawn=('n', 1), max_jobs=1,
   chk=cc(checkpoint_iter_frequency=1, keep_past=0), expect_crash=True)
sc('fsame', opts=[dict(script=ez(5, 0))], spawn=('n', 1), max_jobs=1,
   chk=cc(checkpoint_iter_frequency=1, naming_format='always'), expect_crash=True)
sc('ftask', opts=[dict(script=ez(4, 0))], spawn=('n', 1), max_jobs=1, task='UnpicklableTask', chk=I1,
   expect_crash=True)
# settings of the user which cannot be pickled: no checkpoint, or one which holds them
sc('fhunter', opts=[dict(script=ez(4, 0)), B2], spawn=('n', 2), vals=V, hunter='StubbornHunter([(1, 2)])',
   chk=cc(checkpoint_iter_frequency=2, checkpoint_at_conv=True), stubborn=True)
sc('fchecker', opts=[dict(script=ez(4, 0))], spawn=('n', 2), conv='StubbornChecker(MaxFuncCalls(6))',
   chk=cc(checkpoint_iter_frequency=2, checkpoint_at_init=True), stubborn=True)
sc('fstubborn', opts=[dict(script=ez(4, 0))], spawn=('n', 2), conv='StubbornChecker(MaxFuncCalls(6))',
   chk=cc(checkpoint_iter_frequency=2, raise_checkpoint_fail=True), stubborn=True, expect_crash=True, allow_survivors=1)
sc('finit', opts=[dict(script=[E])], spawn=('n', 1), max_jobs=1, chk=cc(checkpoint_at_init=True), expect_crash=True)
# directories named in one form or another; the process moves elsewhere
MOVE = dict(be=T, opts=[dict(script=[E, ('c',), ('z', 1.2), E, ('z', 1.2), ('c',), E, ('z', 1.2), E]), B3], spawn=('n', 3))
MOVES = ('rel', 'str', 'relstr')
for _p in MOVES:
    sc('cmove' + _p, chk=I2, paths=_p, **MOVE)
    sc('cmoveconv' + _p, paths=_p, chk=cc(checkpoint_at_init=True, checkpoint_at_conv=True, keep_past=1), **MOVE)
    sc('rmove' + _p, chk=cc(checkpoint_iter_frequency=3), paths=_p, resume=dict(working_dir='wd'), **MOVE)
    sc('rmoveto' + _p, chk=cc(checkpoint_iter_frequency=3), paths=_p, resume=dict(working_dir='wd2'), places=['wd2'], **MOVE)
# resumed runs
sc('r1', opts=[A3, B2], spawn=('n', 2), chk=I2)
sc('rbusy', opts=[A3, W4], spawn=('n', 3), chk=cc(checkpoint_iter_frequency=3))
sc('rbusykill', opts=[W3, W4], vals={1: [5, 6, 6, 6], 2: [9, 1, 1, 1]}, spawn=('n', 2), hunter='RecHunter([(2,1)])',
   chk=I2)
sc('rbatch', opts=[A3, dict(script=[('z', 1.2), ('B', 2), ('z', 2.5), ('B', 3)])], spawn=('n', 2), chk=I2)
sc('rinit', opts=[dict(script=[E] * 2)], spawn=('n', 2), chk=cc(checkpoint_at_init=True))
sc('rspawn', opts=[dict(script=ez(2, 0)), B3], spawn=('n', 4), chk=cc(checkpoint_iter_frequency=3))
sc('rconv', opts=[dict(script=ez(4, 0)), dict(script=ez(3, 1.2))], spawn=('n', 2), conv='MaxFuncCalls(3)',
   chk=cc(checkpoint_at_conv=True), resume=dict(conv='MaxFuncCalls(50)'))
sc('rfmax', opts=[dict(script=ez(4, 0))], conv='MaxFuncCalls(6)', chk=cc(checkpoint_iter_frequency=3))
sc('rend', opts=[B2], spawn=('n', 2), chk=cc(checkpoint_at_conv=True))
sc('rhunt', opts=[dict(script=ez(4, 0))], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])',
   hunt_frequency=3, chk=cc(checkpoint_iter_frequency=3))
sc('rkill', opts=[dict(script=ez(4, 0))], vals=V, spawn=('n', 2), hunter='RecHunter([(1,2)])',
   chk=cc(checkpoint_iter_frequency=3))
sc('rcrash', opts=[dict(script=ez(2, 0, ('x',))), B3], spawn=('n', 3), chk=cc(checkpoint_iter_frequency=3))
sc('rmsg', opts=[dict(script=[E, ('m', 'one'), ('z', 2.5), E]), B2], spawn=('n', 2), chk=I1)
sc('rtime', opts=[dict(script=[E, ('z', 2), E, ('z', 2), E])], spawn=('n', 2), conv='MaxSeconds(overall_max=5)',
   chk=cc(checkpoint_time_frequency=3))
sc('rlonger', be=('processes',), opts=[dict(script=[E, ('z', 1.5), E, ('z', 1.5), E, ('z', 1.5), E])], spawn=('n', 1), max_jobs=1, chk=I1,
   resumes=2, conv='MaxSeconds(overall_max=4)')
sc('rtwice', opts=[dict(script=ez(4, 0)), B3], spawn=('n', 2), chk=cc(checkpoint_iter_frequency=3), resumes=2)
sc('rtypes', opts=[A3, dict(script=ez(2, 1.2), cls='OtherOpt')], spawn=('n', 3), chk=cc(checkpoint_iter_frequency=3))
sc('rworkers', opts=[dict(script=ez(3, 0), workers=2), B2], spawn=('n', 3), max_jobs=3,
   chk=cc(checkpoint_iter_frequency=3))
sc('rshare', opts=[A3], vals=SV, spawn=('n', 2), share=True, chk=cc(checkpoint_iter_frequency=3))
sc('rforced', be=('processes_forced',), opts=[A3], spawn=('n', 2), chk=cc(checkpoint_iter_frequency=3))
sc('rclean', opts=[dict(script=ez(2, 0)), B3], spawn=('n', 3), summary=0, chk=cc(checkpoint_iter_frequency=3))
# resumed long afterwards, with a limit on how long an optimizer may be silent
sc('rlong', be=P, opts=[dict(script=[E, ('z', 30), E, ('z', 50), E]), B3], spawn=('n', 2),
   chk=cc(checkpoint_iter_frequency=2), force=60, gap=500)
sc('rlonghang', be=P, opts=[dict(script=ez(3, 0, ('z', 2.5), ('h',))), B3], spawn=('n', 2),
   chk=cc(checkpoint_iter_frequency=3), force=60, gap=500)
sc('rlongspawn', be=P, opts=[dict(script=ez(2, 0)), dict(script=[E, ('z', 40), E, ('z', 40), E])], spawn=('n', 4),
   chk=cc(checkpoint_iter_frequency=3), force=60, gap=500)


def units(names, oracles, body, quick, thorough, both=('c1', 'r1', 'f1', 'cspawn', 'ckill')):
    """ The quick tier runs most scenarios with one of the two backends only, in turn. """
    def make(tier):
        out = []
        for k_, n in enumerate(names):
            q, t = quick, thorough
            if isinstance(n, tuple):
                n, q, t = n
            keys = [k for k in SC if k == n or k.rsplit('-', 1)[0] == n]
            assert keys, n
            if tier == 'quick' and len(keys) > 1 and n not in both:
                keys = [sorted(keys)[k_ % len(keys)]]
            for k in keys:
                b = dict(q if tier == 'quick' else t)
                if SC[k].get('faults'):
                    b.setdefault('f', 1)
                out.append(Unit(k, SC[k], b, oracles, body))
        return out
    return make


F1, F1S1 = dict(f=1), dict(f=1, s=1)
FLOOD = [('cdozen', dict(s=0), S1), ('cflood', dict(s=0), S1), ('cflood2', dict(s=0), S1)]
DIE = [('cdie', F1, F1S1), ('cdieeof', F1, F1S1), ('cdielate', F1, F1S1)]
RUN = ['c1', 'cburst', 'cinit', 'cconv', 'cend', 'ctime', ('cuser', F1, F1S1), 'cspawn', 'cshort', 'cmsg', 'ccrash', 'cquit', 'ckill',
       'ckill2', 'ceof', 'cshare', 'cbusy', 'cbusyshare', 'cbusykill', 'cbusyend', 'cbatch', 'cloud', 'clinger', 'clingerone', 'clingereof', 'cfast', 'cfast2', 'clean', 'cthree', 'cforced', 'codd', 'cnothing', 'cworkers', 'ctypes',
       'csleep', 'cidle']

PROPS = {
    'P11': dict(units=lambda tier: units(RUN + FLOOD + DIE, core + [c.o_cut], c.look_body, S1, S2)(tier) +
                units([a + b for a in ('cmove', 'cmoveconv') for b in MOVES], core + [c.o_cut, o.o_place], c.look_body, dict(s=0), S1)(tier)),
    'P12': dict(units=lambda tier: (
        units(RUN + FLOOD + DIE, core + [o.o_account, o.o_result, c.o_quiet],
              c.first_session, S1, S2)(tier) +
        units([a + b for a in ('cmove', 'cmoveconv') for b in MOVES], core + [c.o_quiet, o.o_place], c.first_session, dict(s=0), S1)(tier) +
        units(['f1', 'fraise', 'fend', 'fconv'], core + [o.o_account, c.o_failed], c.faulty(c.first_session, True, False),
              F1, F1S1)(tier))),
    'P13': dict(units=lambda tier: units(['r1', 'rbusy', 'rbusykill', 'rbatch', 'rlinger', 'rloud', 'rinit', 'rspawn', 'rconv', 'rfmax', 'rend', 'rhunt', 'rkill', 'rcrash', 'rmsg',
                             'rtime', 'rlonger', 'rtwice', 'rtypes', 'rworkers', 'rshare', 'rforced', 'rclean', ('rdozen', dict(s=0), dict(s=0)), ('rmany', dict(s=0), dict(s=0))],
                            core + [o.o_result, c.o_resumed, c.o_time], c.resume_body, S1, S2)(tier) +
                units([a + b for a in ('rmove', 'rmoveto') for b in MOVES], core + [o.o_result, c.o_resumed, c.o_time, o.o_place],
                      c.resume_body, dict(s=0), S1)(tier)),
    'P14': dict(units=units(['f1', 'fraise', 'fend', 'fconv', 'fprune', 'fprune0', 'fsame', 'ftask', 'fhunter', 'fchecker', 'fstubborn', 'finit', 'ckill'],
                            core + [c.o_atomic], c.faulty(c.first_session), F1, F1S1)),
}
