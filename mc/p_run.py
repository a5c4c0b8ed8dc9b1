"""Scenarios in which the real manager runs, and the properties decided on them."""
from . import oracles as o
from .scen import E, ED, Unit

NAN, INF = float('nan'), float('inf')
SC = {}


def sc(name, be=('processes', 'threads'), **cfg):
    cfg.setdefault('max_jobs', 2)
    for b in be:
        SC[f'{name}-{b}'] = dict(cfg, backend=b)


P = ('processes',)
T = ('threads',)

# nothing special: optimizers end by themselves, slots are refilled, spawning stops
sc('plain', opts=[dict(script=[E] * 2), dict(script=[E] * 3)], spawn=('n', 3))
sc('single', opts=[dict(script=[E] * 2)], spawn=('n', 1), max_jobs=1)
sc('short', opts=[dict(script=[])], spawn=('n', 2))
sc('forced', be=('processes_forced',), opts=[dict(script=[E] * 2), dict(script=[E])], spawn=('n', 3))
sc('reuse', be=T, opts=[dict(script=[E] * 2, init=dict(reuse=True))], spawn=('n', 2))
sc('three', opts=[dict(script=[E] * 2)], spawn=('n', 3), max_jobs=3)
sc('sleepy', opts=[dict(script=[('z', 1.5), E, ('z', 0.7), E]), dict(script=[E])], spawn=('n', 2))
# values which do not compare as usual, ties
sc('odd', opts=[dict(script=[E] * 3)], spawn=('n', 2), vals={1: [NAN, INF, 4.0], 2: [3.0, 3.0, NAN]})
sc('ties', opts=[dict(script=[E] * 2)], spawn=('n', 3), vals={1: [2.0, 1.0], 2: [1.0, 1.0], 3: [1.0, 0.0]})
sc('nothing', opts=[dict(script=[E] * 2)], spawn=('n', 2), vals={0: [INF, NAN]})
sc('minus', opts=[dict(script=[E] * 2)], spawn=('n', 2), vals={1: [0.0, -1.0], 2: [-INF, 5.0]})
# caching queue: more results than fit while the manager is kept from reading
sc('fast', opts=[dict(script=[E] * 14)], spawn=('n', 1), max_jobs=1)
sc('fast2', opts=[dict(script=[E] * 9)], spawn=('n', 2))
# hunting
V = {1: [5, 4, 3, 2], 2: [9, 8, 7, 6], 3: [1, 1, 1, 1]}
# directories are named in one form or another, and the process moves elsewhere
C = ('c',)
MOVE = dict(be=T, opts=[dict(script=[E, C, E]), dict(script=[E, ('z', 1.3), E])], spawn=('n', 3), vals=V)
sc('hunt', opts=[dict(script=[E] * 4)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])')
sc('huntall', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter(always=True)')
sc('hunt2', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2)])', hunt_frequency=2)
sc('hunt3', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(1,3),(3,1)])',
   hunt_frequency=3, max_jobs=3)
sc('hunt7', opts=[dict(script=[E] * 2)], vals=V, spawn=('n', 3), hunter='RecHunter(always=True)', hunt_frequency=7)
sc('huntcombo', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3),
   hunter='RecHunter([(1,2)]) & MinFuncCalls(2) | RecHunter([(3,1)])')
sc('nohunt', opts=[dict(script=[E] * 2)], vals=V, spawn=('n', 2))
sc('aggressive', opts=[dict(script=[E] * 4)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])',
   aggressive=True)
sc('huntodd', opts=[dict(script=[E] * 3)], vals={1: [NAN, NAN, 4.0], 2: [INF, 3.0, 2.0]}, spawn=('n', 2),
   hunter='RecHunter([(2,1)])')
sc('huntfast', opts=[dict(script=[E] * 8)], vals={1: [5], 2: [6]}, spawn=('n', 2), hunter='RecHunter([(1,2)])',
   hunt_frequency=4)
for _l in (0, 1, 3):
    sc(f'see{_l}', opts=[dict(script=[E] * 2), dict(script=[E] * 4)], vals=V, spawn=('n', 4), hunter='RecHunter([(1,2),(3,4)])',
       summary=_l, watch=True)
    sc(f'seelinger{_l}', opts=[dict(script=[E] * 2, init=dict(linger=(2, 1))), dict(script=[E, ('z', 1.5), E, E])], vals=V,
       spawn=('n', 3), hunter='RecHunter([(3,2)])', summary=_l, watch=True)
sc('huntlate', opts=[dict(script=[E] * 4)], vals={1: [NAN, NAN, INF, 3.0], 2: [NAN, INF, NAN, 2.0], 3: [1, 5, 5, 5]}, spawn=('n', 4),
   hunter='RecHunter([(3,4)])', hunt_frequency=3)
sc('huntlate2', opts=[dict(script=[E] * 5)], vals={1: [INF] * 5, 2: [NAN, NAN, NAN, 2.0, 3.0]}, spawn=('n', 3),
   hunter='RecHunter([(3,4)])', hunt_frequency=4)
# more evaluations than the queue holds after the run has been told to stop
sc('floodend', opts=[dict(script=[E] * 3 + [('B', 250)])], spawn=('n', 1), max_jobs=1, conv='MaxFuncCalls(2)')
sc('floodkill', opts=[dict(script=[E] * 3), dict(script=[E, ('B', 250)])], spawn=('n', 2), vals=V, hunter='RecHunter([(1,2)])')
# children which fail
sc('crashone', opts=[dict(script=[E, ('m', 'oh'), ('x',)])], spawn=('n', 1), max_jobs=1)
sc('crash', opts=[dict(script=[E, ('x',)]), dict(script=[E] * 3)], spawn=('n', 3))
sc('crashearly', opts=[dict(script=[('x',)]), dict(script=[E] * 2)], spawn=('n', 2))
sc('crashall', opts=[dict(script=[E, ('x',)])], spawn=('n', 2))
# optimizers which crash at once, again and again
sc('hopeless', opts=[dict(script=[('x',)])], conv='MaxOptsStarted(40)', expect_crash=1, hopeless=1)
sc('hopeless1', opts=[dict(script=[('x',)])], conv='MaxOptsStarted(40)', max_jobs=1, expect_crash=1, hopeless=1)
sc('hopelessmix', opts=[dict(script=[('x',)]), dict(script=[('m', 'bye'), ('q',)]), dict(script=[('m', 'well')])],
   conv='MaxOptsStarted(40)', expect_crash=1, hopeless=1)
sc('hopelesslate', opts=[dict(script=[E] * 2), dict(script=[('x',)], cls='OtherOpt')], selector='chain', thresholds=[4],
   conv='MaxOptsStarted(40)', expect_crash=1, hopeless=1)
sc('hopelesstwo', opts=[dict(script=[('x',)]), dict(script=[('m', 'bye'), ('q',)])], conv='MaxOptsStarted(40)', expect_crash=1,
   hopeless=1)
sc('idlemsg', opts=[dict(script=[('m', 'well')])], conv='MaxOptsStarted(10)')
sc('hopeful', opts=[dict(script=[E, ('x',)])], conv='MaxFuncCalls(9)')
sc('hopeful2', opts=[dict(script=[('x',)]), dict(script=[E, ('m', 'well'), ('x',)])], conv='MaxFuncCalls(6)')
sc('idle', opts=[dict(script=[])], conv='MaxOptsStarted(10)')
sc('quit', opts=[dict(script=[E, ('q',)]), dict(script=[E] * 2, init=dict(silent_end=True))], spawn=('n', 3))
sc('exit', be=P, opts=[dict(script=[E, ('Q', 3)]), dict(script=[E] * 2)], spawn=('n', 2))
sc('exit0', be=P, opts=[dict(script=[E, ('Q', 0)]), dict(script=[E] * 2)], spawn=('n', 2))
sc('kill', be=P, opts=[dict(script=[E] * 2), dict(script=[E] * 3)], spawn=('n', 2), faults=('kill',))
sc('killeof', be=P, opts=[dict(script=[E] * 2), dict(script=[E] * 3)], spawn=('n', 2), faults=('kill',), eof=True)
sc('killhunt', be=P, opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 2), hunter='RecHunter([(1,2)])',
   faults=('kill',), eof=True)
sc('killshare', be=P, opts=[dict(script=[E] * 2)], vals={1: [5, 3], 2: [4, 2]}, spawn=('n', 2), share=True,
   faults=('kill',), eof=True)
sc('killfast', be=P, opts=[dict(script=[E] * 13)], spawn=('n', 1), max_jobs=1, faults=('kill',))
sc('plaineof', be=P, opts=[dict(script=[E] * 2), dict(script=[E])], spawn=('n', 3), eof=True)
sc('hunteof', be=P, opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])', eof=True)
sc('shareeof', be=P, opts=[dict(script=[E] * 2)], vals={1: [5, 3], 2: [4, 2]}, spawn=('n', 2), share=True, eof=True)
sc('fmaxeof', be=P, opts=[dict(script=[E] * 4), dict(script=[E])], conv='MaxFuncCalls(4)', eof=True)
# stopping criteria
sc('fmax', opts=[dict(script=[E] * 6)], conv='MaxFuncCalls(5)')
sc('fmaxend', opts=[dict(script=[E] * 2)], conv='MaxFuncCalls(4)', spawn=('n', 2))
sc('ftarget', opts=[dict(script=[E] * 3)], vals={1: [5, 3, 1], 2: [4, 2, 0]}, conv='TargetCost(2)')
sc('omax', opts=[dict(script=[E])], conv='MaxOptsStarted(3)')
sc('nconv', opts=[dict(script=[E]), dict(script=[E] * 4)], conv='NOptConverged(2)')
sc('nkill', opts=[dict(script=[E] * 4)], vals=V, spawn=('n', 4), conv='MaxKills(1)', hunter='RecHunter([(1,2),(3,1)])')
sc('nkillbusy', opts=[dict(script=[E] * 4), dict(script=[E, ('b', 6), E], init=dict(linger=(2, 1)))], vals=V, spawn=('n', 4),
   conv='MaxKills(1)', hunter='RecHunter([(1,2),(3,4)])')
sc('kac', opts=[dict(script=[E] * 3)], vals={1: [5, 4, 3], 2: [1, 1, 1], 3: [2, 2, 2], 4: [0, 0, 0]},
   conv='KillsAfterConvergence(1, 1)', hunter='RecHunter(always=True)', spawn=('n', 4))
sc('tmax', opts=[dict(script=[E, ('z', 2.5)] * 3)], conv='MaxSeconds(session_max=3)')
# nothing happens but that time passes
sc('tmaxidle', opts=[dict(script=[E] + [('z', 0.5)] * 16)], conv='MaxSeconds(session_max=3)', spawn=('n', 1), pass_time=2)
sc('tmaxidle2', opts=[dict(script=[E] + [('z', 0.5)] * 16), dict(script=[('z', 0.5)] * 9)], spawn=('n', 2), pass_time=2,
   conv='MaxSeconds(overall_max=3) & MaxFuncCalls(1) | MaxKills(1)')
sc('convcombo', opts=[dict(script=[E] * 4)], conv='MaxFuncCalls(3) & MaxOptsStarted(2) | TargetCost(-1)')
sc('convshort', opts=[dict(script=[E])], conv='MaxFuncCalls(50) | NOptConverged(3)', spawn=('n', 3))
# a dozen optimizers: names which do not sort like numbers
sc('dozen', opts=[dict(script=[E] * 2), dict(script=[E, ('x',)]), dict(script=[E, E, ('m', 'hi')])], spawn=('n', 12), max_jobs=12,
   vals={0: [9, 8], 9: [7, 6, 5], 10: [4, 3, 2], 12: [3.5, 3.1, 1]}, hunter='RecHunter([(10,9),(9,1),(12,10),(10,1)])', share=True)
sc('many', opts=[dict(script=[E]), dict(script=[E, ('z', 1.3), E])], spawn=('n', 13), max_jobs=3, conv='MaxOptsStarted(12)')
# spawning and slots
sc('workers', opts=[dict(script=[E] * 2, workers=2), dict(script=[E] * 2)], spawn=('n', 3), max_jobs=3)
sc('workers3', opts=[dict(script=[E], workers=3), dict(script=[E] * 2)], spawn=('n', 4), max_jobs=3)
sc('workersbig', opts=[dict(script=[E] * 2, workers=2), dict(script=[E], workers=2)], spawn=('n', 3), max_jobs=3)
sc('fspawn', opts=[dict(script=[E] * 2)], spawn=('f', 3))
sc('chain', opts=[dict(script=[E] * 2, init=dict(marker='a')), dict(script=[E], cls='OtherOpt',
                                                                    init=dict(marker='b'))],
   selector='chain', thresholds=[2], spawn=('n', 4))
sc('chainstop', opts=[dict(script=[E], init=dict(marker='a')), dict(script=[E], cls='OtherOpt',
                                                                    init=dict(marker='b'))],
   selector='chain', thresholds=[1, 3])
sc('types', opts=[dict(script=[E], call=dict(knob=3), init=dict(marker='a', backend='threads')),
                  dict(script=[E] * 2, cls='OtherOpt', init=dict(marker='b', backend='processes'))], spawn=('n', 4),
   detailed=True)
sc('bags', opts=[dict(script=[E], call=dict(bag=dict(n=0, all=[])), init=dict(bag=dict(n=0, all=[]), marker='a')),
                 dict(script=[E] * 2, call=dict(knob=[1], bag=dict(n=5, all=[1])), init=dict(marker='b'))], spawn=('n', 5))
# evaluations which take a while, several evaluations between two looks at the messages
# optimizers which live on for a while after they have announced their end
LONG_END = dict(script=[E] * 2, init=dict(linger=(3, 2)))
sc('linger', opts=[LONG_END, dict(script=[E, ('z', 2), E], init=dict(linger=(0.5, 1)))], spawn=('n', 3))
sc('lingerlast', opts=[LONG_END], spawn=('n', 1), max_jobs=1)
sc('lingerhunt', opts=[dict(script=[E, ('z', 1.5)] * 3, init=dict(linger=(3, 1))), dict(script=[E, ('b', 4), E],
   init=dict(linger=(6, 0)))], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2), (3,1)])')
sc('lingerfmax', opts=[LONG_END], spawn=('n', 4), conv='MaxFuncCalls(6)')
sc('lingercrash', opts=[dict(script=[E] * 2, init=dict(linger=(3, 1))), dict(script=[E, ('z', 2), ('x',)])], spawn=('n', 3))
sc('lingershare', opts=[LONG_END, dict(script=[E, ('z', 2)] * 3)], vals={1: [5, 4, 2, 1], 2: [6, 4.5, 3]}, spawn=('n', 2),
   share=True)
# logging at its most detailed level and status messages in every pass
loud = dict(debug=True, status=0)
sc('loud', opts=[dict(script=[E] * 2), dict(script=[E] * 3)], spawn=('n', 3), **loud)
sc('loudhunt', opts=[dict(script=[E] * 3), dict(script=[E, ('m', 'oh'), E, ('x',)])], vals=V, spawn=('n', 4),
   hunter='RecHunter([(1,2), (3,1)])', share=True, **loud)
sc('loudnothing', opts=[dict(script=[E] * 2)], vals={0: [float('inf'), float('nan')]}, spawn=('n', 2), conv='MaxFuncCalls(3)',
   hunter='RecHunter([(1,2)])', **loud)
sc('loudlean', opts=[dict(script=[E] * 2), dict(script=[('q',)])], spawn=('n', 3), summary=0, **loud)
sc('loudfile', opts=[dict(script=[E] * 2), dict(script=[E, ('z', 3), E])], spawn=('n', 3), summary=3, **loud)
sc('loudminus', opts=[dict(script=[E] * 2)], vals={0: [-float('inf'), -5.0]}, spawn=('n', 2), **loud)
sc('loudforce', be=P, opts=[dict(script=[E, ('h',)]), dict(script=[E] * 2)], spawn=('n', 2), force=60, **loud)
sc('loudkill', be=P, opts=[dict(script=[E] * 2)], spawn=('n', 2), faults=('kill',), **loud)
sc('busy', opts=[dict(script=[('b', 1.5), ('b', 0.7)]), dict(script=[('b', 0.4)] * 2)], spawn=('n', 3))
sc('batch', opts=[dict(script=[('B', 3), ('z', 1), ('B', 2)]), dict(script=[('b', 0.5), ('B', 2)])], spawn=('n', 3))
sc('huntbusy', opts=[dict(script=[E] * 3), dict(script=[E, ('b', 2), ('b', 2)])], vals=V, spawn=('n', 3),
   hunter='RecHunter([(1,2),(3,2)])')
sc('huntbatch', opts=[dict(script=[E, ('B', 3), ('B', 3)])], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])')
sc('fmaxbusy', opts=[dict(script=[('b', 0.5)] * 4), dict(script=[('B', 2), ('b', 3), ('B', 2)])], conv='MaxFuncCalls(5)')
sc('sharebusy', opts=[dict(script=[E, ('b', 0.5), ('b', 2)])], vals={1: [5, 3, 3], 2: [4, 2, 2]}, spawn=('n', 2),
   share=True)
# reduced logging: histories are dropped as optimizers end
sc('lean', opts=[dict(script=[E] * 2), dict(script=[E] * 3)], spawn=('n', 3), summary=0)
sc('leancrash', opts=[dict(script=[E, ('x',)]), dict(script=[E] * 2)], spawn=('n', 3), summary=1)
sc('leanquit', opts=[dict(script=[E, ('q',)]), dict(script=[E] * 2)], spawn=('n', 3), summary=0)
sc('leanhunt', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])', summary=0)
sc('leanfmax', opts=[dict(script=[E]), dict(script=[E] * 4)], conv='MaxFuncCalls(4)', summary=0)
sc('leanmsg', opts=[dict(script=[E, ('m', 'hello')]), dict(script=[E] * 2)], spawn=('n', 2), summary=0)
# messages
sc('msg', opts=[dict(script=[('m', 'one'), E, ('m', 'two')]), dict(script=[E, ('m', 'three')])], spawn=('n', 2))
sc('msgs', opts=[dict(script=[E, ('m', 'one'), ('m', 'two'), ('m', 'three')]), dict(script=[E])], spawn=('n', 2))
sc('msgcrash', opts=[dict(script=[('m', 'one'), E, ('m', 'two'), ('x',)])], spawn=('n', 1), max_jobs=1)
# unresponsive children
sc('hang', be=P, opts=[dict(script=[E, ('h',)]), dict(script=[E] * 2)], spawn=('n', 2), force=60)
sc('hangfirst', be=P, opts=[dict(script=[('h',)]), dict(script=[E, ('z', 50), E, ('z', 50), E])], spawn=('n', 2),
   force=60)
sc('slow', be=P, opts=[dict(script=[('z', 50), E, ('z', 50), E, ('z', 50), E]), dict(script=[E] * 2)], spawn=('n', 2),
   force=60)
sc('deaf', be=P, opts=[dict(script=[E] * 2), dict(script=[E, ('z', 20)] * 6, init=dict(deaf=True))], spawn=('n', 2),
   vals={1: [5, 4], 2: [9] * 6}, hunter='RecHunter([(1,2)])', force=60)
sc('slowvictim', be=P, opts=[dict(script=[E] * 2), dict(script=[E, ('z', 40), E])], spawn=('n', 2),
   vals={1: [5, 4], 2: [9] * 6}, hunter='RecHunter([(1,2)])', force=60)
sc('noforce', opts=[dict(script=[E, ('z', 500), E]), dict(script=[E] * 2)], spawn=('n', 2))
sc('deafnoforce', opts=[dict(script=[E] * 2), dict(script=[E, ('z', 200), E, ('z', 200), E], init=dict(deaf=True))],
   spawn=('n', 2), vals={1: [5, 4], 2: [9] * 6}, hunter='RecHunter([(1,2)])')
sc('forcethreads', be=T, opts=[dict(script=[E, ('z', 500), E]), dict(script=[E] * 2)], spawn=('n', 2), force=60)
sc('deafend', be=P, opts=[dict(script=[E] * 20 + [('z', 500)], init=dict(deaf=True)), dict(script=[E] * 2)],
   conv='MaxFuncCalls(3)', vals={0: [5]}, end_timeout=5)
sc('chatty', be=P, opts=[dict(script=[('z', 40), ('m', 'a'), ('z', 40), ('m', 'b'), ('z', 40), E]), dict(script=[E] * 2)],
   spawn=('n', 2), force=60)
sc('latehang', be=P, opts=[dict(script=[E, ('z', 30), E, ('z', 55), E, ('h',)]), dict(script=[('z', 20), E] * 3)],
   spawn=('n', 3), force=60)
sc('second', be=P, opts=[dict(script=[('z', 50), E] * 2), dict(script=[('z', 45), E])], spawn=('n', 4), force=60)
sc('fastslow', be=P, opts=[dict(script=[E] * 12 + [('z', 50), E] * 4)], spawn=('n', 1), max_jobs=1, force=60)
sc('forceaggr', be=P, opts=[dict(script=[E] * 2), dict(script=[E, ('z', 40), E])], spawn=('n', 2), aggressive=True,
   vals={1: [5, 4], 2: [9] * 6}, hunter='RecHunter([(1,2)])', force=60)
sc('endslow', be=P, opts=[dict(script=[E] * 3 + [('z', 7), E]), dict(script=[E, ('z', 3), E])], conv='MaxFuncCalls(3)')
sc('enddeaf', be=P, opts=[dict(script=[E] * 3 + [('z', 7), E, ('z', 7), E, ('z', 7), E], init=dict(deaf=True))],
   max_jobs=2, conv='MaxFuncCalls(3)')
# sharing
SV = {1: [5, 3, 3], 2: [4, 2, 2]}
sc('share', opts=[dict(script=[E] * 3)], vals=SV, spawn=('n', 2), share=True)
sc('sharezero', opts=[dict(script=[E] * 3)], vals={1: [1, 0, 0], 2: [2, -0.0, 1]}, spawn=('n', 2), share=True)
sc('share3', opts=[dict(script=[E] * 2)], vals={1: [5, 3], 2: [4, 2], 3: [NAN, 1]}, spawn=('n', 3), share=True,
   max_jobs=3)
sc('sharehunt', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), share=True, hunter='RecHunter([(1,2),(3,1)])')
# interruption by the user
sc('int', opts=[dict(script=[E] * 2), dict(script=[E] * 3)], spawn=('n', 3), faults=('interrupt',), allow_survivors=1)
sc('inthunt', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2)])',
   faults=('interrupt',), allow_survivors=1)

core = [o.o_nocrash, o.o_term]


def units(names, oracles, quick, thorough, body=None):
    """ names: list of scenario names (prefix match on 'name-' selects every backend) or (name, quick, thorough). """
    def make(tier):
        out = []
        for n in names:
            q, t = quick, thorough
            if isinstance(n, tuple):
                n, q, t = n
            keys = [k for k in SC if k == n or k.rsplit('-', 1)[0] == n]
            assert keys, n
            for k in keys:
                b = dict(q if tier == 'quick' else t)
                if SC[k].get('faults'):
                    b.setdefault('f', 1)
                out.append(Unit(k, SC[k], b, core + oracles, body))
        return out
    return make


S0, S1, S2, S3 = dict(s=0), dict(s=1), dict(s=2), dict(s=3)

def resumed_force(tier):
    from . import p_chk
    return p_chk.units(['rlong', 'rlonghang', 'rlongspawn'], [*core, o.o_force_resumed], p_chk.c.resume_body, S1, S2)(tier)


PROPS = {
    'P01': dict(units=units([('dozen', S0, S1), ('many', S0, S1), 'linger', 'lingerhunt', 'batch', 'huntbusy', ('single', S3, dict(s=4)), 'short', ('plain', S2, S3), 'forced', 'reuse', 'odd', 'ties',
                             'nothing', 'minus', 'fast', 'hunt', 'aggressive', 'crash', 'kill', 'fmax', 'ftarget',
                             'lean', 'leanhunt', 'share'], [o.o_result], S1, S2)),
    'P02': dict(units=units([('dozen', S0, S1), ('many', S0, S1), 'linger', 'lingerlast', 'lingerhunt', 'lingerfmax', 'lingercrash', 'busy', 'batch', 'huntbusy', 'huntbatch', 'fmaxbusy', ('single', S3, dict(s=4)), ('plain', S2, S3), 'forced', 'reuse', 'odd', 'fast', 'fast2',
                             'hunt', 'huntfast', 'aggressive', 'crash', 'quit', 'kill', 'killfast', 'fmax', 'fmaxend',
                             'tmax', 'nkillbusy', 'plaineof', 'workers', 'share', 'three'], [o.o_account], S1, S2)),
    'P03': dict(units=units(['loud', 'loudhunt', 'loudnothing', 'loudlean', 'loudfile', 'loudminus', 'loudforce', 'loudkill', 'linger', 'lingerhunt', 'lingerfmax', 'lingershare', 'busy', 'huntbatch', 'fmaxbusy', 'sharebusy', ('single', S3, dict(s=4)), 'short', 'plain', 'forced', 'fast', 'hunt', 'huntall',
                             'aggressive', 'crash', 'crashall', 'quit', 'exit', 'kill', 'killeof', 'killhunt',
                             'killshare', 'killfast', 'hunteof', 'shareeof', 'fmaxeof', 'fmax', 'nkill', 'nkillbusy', 'tmax',
                             'workersbig', 'share', 'sharehunt', 'hang', 'hangfirst', 'deaf', 'deafend', 'leanquit',
                             'leanfmax', 'leanmsg', 'msgs', ('floodend', S0, S1), ('floodkill', S0, S1)], [], S1, S2)),
    'P04': dict(units=units([('dozen', S0, S1), ('many', S0, S1), 'linger', 'lingerlast', 'lingerhunt', 'busy', 'huntbusy', ('plain', S2, S3), 'single', 'three', 'workers', 'workers3', 'workersbig', 'hunt',
                             'huntall', 'crash', 'quit', 'kill', 'fmax', 'fspawn', 'forced', 'omax', 'deaf',
                             'aggressive'], [o.o_slots], S1, S2)),
    'P05': dict(units=lambda tier: units([('dozen', S0, S1), 'huntlate', 'huntlate2', 'lingerhunt', 'huntbusy', 'huntbatch', ('hunt', S1, S2), 'huntall', 'hunt2', 'hunt3', 'hunt7', 'huntcombo', 'nohunt',
                             'aggressive', 'huntodd', 'huntfast', 'killhunt', 'hunteof', 'sharehunt', 'kac'],
                            [o.o_hunt], S1, S2)(tier) + units(['see0', 'see1', ('see3', S0, S1), 'seelinger0', ('seelinger1', S0, S1), ('seelinger3', S0, S1)],
                            [o.o_hunt_sees], S1, S2)(tier)),
    'P06': dict(units=units([('dozen', S0, S1), ('many', S0, S1), 'linger', 'lingerlast', 'lingerhunt', 'lingerfmax', 'lingercrash', 'huntbusy', 'fmaxbusy', ('plain', S2, S3), ('single', S3, dict(s=4)), 'short', 'forced', 'hunt', 'huntall', 'crash', 'crashall', 'quit', 'exit',
                             'exit0', 'kill', 'killhunt', 'fmax', 'fmaxend', 'nconv', 'nkill', 'nkillbusy', 'omax', 'plaineof',
                             'hunteof', 'fmaxeof', 'lean', 'leancrash', 'leanquit', 'leanhunt', 'int'],
                            [o.o_life], S1, S2)),
    'P07': dict(units=units(['lingercrash', ('crashone', S2, S3), 'crash', 'crashearly', 'crashall', 'quit', 'exit', 'exit0', 'kill', 'killeof', 'killhunt',
                             'killshare', 'leancrash', 'leanquit', 'leanmsg', 'msg', 'msgs', 'msgcrash', 'hopeless', 'hopeless1',
                             'hopelessmix', 'hopelesstwo', 'idlemsg', 'hopelesslate', 'hopeful', 'hopeful2', 'idle'],
                            [o.o_hopeless, o.o_fail, o.o_result, o.o_account], S1, S2)),
    'P08': dict(units=lambda tier: resumed_force(tier) + units(['hang', 'hangfirst', 'slow', 'deaf', 'slowvictim', 'noforce', 'deafnoforce', 'forcethreads',
                             'chatty', 'latehang', 'second', 'fastslow', 'forceaggr', 'deafend', 'endslow', 'enddeaf'],
                            [o.o_force], S1, S2)(tier)),
    'P09': dict(units=units(['lingerlast', 'lingerfmax', 'fmaxbusy', 'fmax', 'fmaxend', 'ftarget', 'omax', 'nconv', 'nkill', 'nkillbusy', 'kac', 'tmax', 'tmaxidle', 'tmaxidle2', 'convcombo',
                             'convshort', 'plain', 'short', 'crash', 'fmaxeof', 'leanfmax'], [o.o_conv], S1, S2)),
    'P10': dict(units=units([('dozen', S0, S1), ('many', S0, S1), 'bags', 'plain', 'fspawn', 'chain', 'chainstop', 'types', 'workers', 'omax', 'crash', 'hunt',
                             'forced', 'short'], [o.o_spawn, o.configured_backend, o.o_slots], S1, S2)),
}
